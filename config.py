"""What each check runs and within which bounds."""
ASSUMPTIONS = [
    "rustc nightly's LLVM IR of /repo's crates (opt-level 1, fat LTO, panic=abort, overflow checks on) is the code executed; "
    "the optimiser and code generator are trusted to preserve its meaning",
    "the engine's semantics of LLVM IR (validated on every run by replaying sampled paths natively) and Z3's verdicts",
    "allocation succeeds; 64-bit little-endian target",
]
TRUSTED = []
HASH = "hashbrown's hash function is replaced by a constant one: maps iterate in the order of insertion"
LZ = ("lz4_flex is replaced by a compressor of the same format which writes literals only (its search for matches on free bytes is out of reach); the "
      "real one is explored under C09")
SYS = ("the daemon's own code (crates/sourisd, main and every route) and both clients run; the libraries beneath are stand-ins in harness/stubs: tokio (executor, locks, "
       "timers, signals, files), axum (routing, extractors, layers), moka (a cache which may drop any entry), reqwest and ureq (hand the request to the daemon's "
       "router), tower-http, tracing, dirs, color-eyre; std's maps hash with a constant")
FILES = ("files: every operation may be the last one of the process, a write may arrive in part; what the kernel took survives (no loss of power)")
INT = "every value of the named machine types; encodings: every sign state and every byte string of one integer (all 18 forms, up to 17 bytes)"
PROPS = {
    "C01": dict(crates=["hdb"], bounds=INT + "; all 12x12 pairs of source and target type", covers=["converted", "refused"]),
    "C02": dict(crates=["hdb"], bounds=INT + "; pairs of values from any two of: u8..u128, i8..i128, any encoding, texts of up to 2 digits, JSON numbers (u64, i64)",
                outside="longer texts and JSON floats", covers=["equal", "different"]),
    "C03": dict(crates=["hdb"], bounds=INT + "; followed by 2 arbitrary bytes; every strict prefix", covers=["read back"]),
    "C04": dict(crates=["hdb"],
                bounds="texts: every ASCII text of up to 3 bytes (thorough 5), every text of up to 2 Unicode scalar values, the two digits around each end of the "
                       "range; display: every u8..u64, i8..i32 (thorough i64), windows of 16 numbers at the edges of the wide types; arithmetic: every pair of "
                       "operands for + - * / at 8 and 16 bits and for unsigned 32 and 64 bits, + - / at i32 and i64, + - at 128 bits; any 128-bit number times, or divided by, "
                       "20 fixed ones",
                outside="products of two free signed operands wider than 16 bits and the middle of the 128-bit display range (solver out of reach)",
                covers=["parsed", "refused", "computed"]),
    "C05": dict(crates=["hdb"], bounds="every f64 and f32 (each exponent in turn, sign and mantissa free); every i64 of at most 53 bits and i32 of at most 24 bits back",
                covers=["converted", "refused"]),
    "C06": dict(crates=["hdb"], bounds="starting lists of up to 17 bits (thorough 33) of any content, then every sequence of 3 (short lists: 5, thorough: 4) operations among push, "
                "pop, push_many of up to 2 (thorough 9) bits, clear, push_into_new; draining up to 25 bits; encodings of up to 25 bits and of 236 to 241; text of up to 9 "
                "(thorough 12) bits", covers=["history", "equal", "different", "read back", "text"]),
    "C07": dict(crates=["hdb"], bounds="data of up to 5 items (thorough 8) of any content, any starting position, every sequence of 1 operation, of 2 on up to 3 items, thorough of 3 on up "
                "to 2, with every usize, u64 or i64 argument; one operation on data of any length at all (zero-sized items)",
                covers=["moved", "refused", "sought", "seek refused"]),
    "C08": dict(crates=["hdb"], bounds="every byte sequence of up to 4 symbols (thorough 5), every pattern of 5 and 6 (thorough 8) of up to 3 different free symbols; trees as deep as 7; every "
                "text of up to 2 Unicode scalar values (thorough 3) and another arbitrary one; patterns of 3 to 5 of 6 characters across the range; the preset English tree with "
                "every ASCII character; every string of up to 4 bits decoded; skewed trees of up to 255 levels; texts of up to 300 different characters", outside="longer sequences of free content",
                assumptions=["hashbrown's hash function is replaced by a constant one: maps iterate in the order of insertion"],
                covers=["lossless", "refused", "decoded", "not an encoding"]),
    "C09": dict(crates=["hdb"], entry_opts={"^c09_very_long$": {"max-steps": 400000000}}, bounds="every byte string of up to 4 bytes (run lengths 7, lempel ziv 12); runs of 3 to 510 of any byte between arbitrary bytes; repeated units of up to 3 bytes "
                "totalling 14 to 25 bytes; strings of fixed content of up to 66 000 bytes", outside="longer strings of free content (lz4's match search on free bytes)",
                assumptions=["hashbrown's hash function is replaced by a constant one"],
                covers=["lossless", "plain chosen", "run lengths chosen", "huffman chosen", "lempel ziv chosen"]),
    "C10": dict(crates=["hdb"], entry_opts={"^c10_long$": {"max-steps": 400000000}}, bounds="all sixteen kinds: characters, integers (6 machine types), imaginary numbers, booleans, floats, addresses: every value; strings of up to 2 characters "
                "(thorough 4); binary of up to 3 bytes; every timestamp of chrono's range; JSON of up to 2 levels; all 596 time zones; arrays and maps of up to 2 elements of "
                "any kinds (thorough 3), nested 2 deep; nesting of 100; lengths at each change of the length encoding up to 65 536; with no tree, a fixed tree and the text's own tree; every strict prefix",
                outside="JSON numbers beyond u8, i8 and five floats",
                assumptions=["hashbrown's hash function is replaced by a constant one"], covers=["read back"]),
    "C11": dict(crates=["hdb"], entry_opts={"^c11_deep_drop$": {"max-depth": 6000, "max-steps": 800000000}},
                bounds="every buffer of up to: integers 18 bytes, imaginary numbers 4, bit strings 6, byte trees 6 (thorough 9), character trees 5 (thorough 6), plain binary 8, "
                       "run lengths 5, lempel ziv 4 (thorough 5), huffman 6; values of every kind with any flags and up to 1 to 17 further bytes by kind; lengths and claims of "
                       "every width; valid encodings with any one byte replaced or cut there; store headers of 11 bytes and bodies of 3 (thorough 4); trees nested 60 000 "
                       "deep and containers 200 deep; JSON text of 3 bytes; memory: at most 16 KiB + 4 KiB per input byte at once",
                outside="longer free buffers; hash lookups of free time-zone names",
                assumptions=["hashbrown's hash function is replaced by a constant one"], covers=["decoded", "refused"]),
    "C12": dict(crates=["hst"], entry_opts={"^c12_long$": {"max-steps": 400000000}},
                bounds="stores of up to 2 entries (thorough: 2 free values) of every kind with at most one free byte each; any one-character key; texts over an alphabet of 3 "
                       "characters, so that the shared tree is absent or has one to three symbols; values with text at every nesting; an empty store; 300 entries, and texts of up to 66 000 characters, of fixed content",
                outside="larger stores of free content", assumptions=[HASH, LZ], covers=["read back"]),
    "C13": dict(crates=["hdb"], bounds="pairs of values of every kind, with the contents of C10 (timestamps within 2024), maps of up to 3 entries with free keys in all insertion orders; triples of "
                "integers, floats and imaginary numbers", assumptions=["hashbrown's hash function is replaced by a constant one; the hash of a value is what it feeds to the hasher"],
                covers=["equal", "different"]),
    "C14": dict(crates=["hst"], bounds="every value of each kind JSON can carry (integers of JSON's range, finite doubles, texts of up to 2 characters, binary of up to 3 bytes, every "
                "address, imaginary numbers, all time zones, timestamps at the ends of each field with one field free), nested 2 deep; every integer outside "
                "JSON's range and every non-finite float at every nesting refused; through text: one free byte",
                outside="maps with a key souris_type; time stamps in leap seconds", assumptions=[HASH, LZ], covers=["returned", "refused"]),
    "C15": dict(crates=["hst"], bounds="documents of every scalar (u64, i64, every finite double, text of up to 2 characters), arrays of up to 3 and objects of up to 2 entries with free "
                "keys, nested 3 deep; every text of up to 3 bytes (thorough 4)", outside="objects with a key souris_type; the reserved object",
                assumptions=[HASH, LZ], covers=["reproduced", "no document"]),
    "C16": dict(crates=["hd"], timeout=400, bounds="every request of 7 kinds with any one-character name and key, any byte value and flags, and every sequence of 2 (thorough 3), after 4 prior "
                "states; every sequence of 2 (thorough 3) of all 9 kinds over 2 names and 2 keys with databases fetched whole; bodies of up to 3 free bytes which are no value, 2 which are no "
                "store; flags of up to 5 free characters; each query parameter left out; bodies of any length claimed; at the end all is read out and compared with a map of maps",
                outside="longer histories; parsing of HTTP itself", assumptions=[HASH, LZ, SYS],
                covers=["created", "no such database", "refused", "a value"]),
    "C17": dict(crates=["hd"], timeout=400, bounds="every interleaving at every suspension point (lock, cache, body, file) of two requests: a read with one of 11 changes under every choice of evictions, "
                "two of 11 changes, free one-letter names and values; three requests with up to 3 (thorough 4) switches away from a runnable one; 3 prior states (absent, there, there and cached)",
                outside="true parallelism inside a poll (no shared state without a lock); four or more requests; more switches among three requests", assumptions=[HASH, LZ, SYS],
                covers=["explained", "overlapping"]),
    "C18": dict(crates=["hd"], timeout=400, entry_opts={"^c18_many_keys$": {"max-steps": 400000000}}, bounds="every history of 2 (thorough 3) changes after 4 prior states, saved by timer or by either signal, restarted; one death at, or one failure of, any "
                "operation on files (a write of any part) in saving after 1 (thorough 2) changes, in removing a database and in the first save, and a further change and save; a request at any moment of a save or of the end; a removal, a database made again and a save "
                "with one (thorough two) preemptions; two reads or writes of half of what was asked for; names of one free "
                "character, odd and long ones; contents of 20 lengths; the three places the directory may be; 120 databases, 260 keys, several rounds of changes and saves; two (thorough three) processes one after another which die while saving or fail to", outside="more deaths in one history",
                assumptions=[HASH, LZ, SYS, FILES], covers=["saved", "died", "failed"]),
    "C19": dict(crates=["hd"], timeout=400, bounds="every name of one or two Unicode scalar values, of three ASCII characters (thorough four and six), of one edit from the reserved name, of 128 to 300 "
                "characters with one free, and 21 ways out of a directory, by every creating request and by every other one, then saved, dropped, restarted; every path the daemon uses is recorded",
                outside="other long names", assumptions=[HASH, LZ, SYS, FILES], covers=["refused", "taken"]),
    "C20": dict(crates=["hd"], timeout=400, bounds="both clients: every call with any one-character name, any key of one Unicode scalar value, any byte value, all flags, after 3 prior states; every two calls over 2 "
                "names and 2 keys; stores of 21 sizes; answers in up to 3 parts, broken off at any; no daemon at all", outside="longer names and keys",
                assumptions=[HASH, LZ, SYS], covers=["done", "not there", "refused", "fetched", "added", "broken", "whole"]),
    "C21": dict(crates=["hdb"], bounds="every imaginary number with parts from 6 machine types or any two doubles; every form code with every pair of encoded integers of 1, 2, 3 and 17 bytes; "
                "every strict prefix", covers=["read back", "refused", "polar", "cartesian"]),
    "C22": dict(crates=["hst"], bounds="structures, enums of all four forms, options, tuples, newtypes, vectors and maps of up to 3 entries, with every bool, u8, u16, i16, char, windows of two "
                "bytes of 32- and 64-bit integers and nine doubles as contents; every kind of value offered to every one of these shapes",
                outside="integers of more than 64 bits (JSON's limit), non-finite floats", assumptions=[HASH, LZ], covers=["read back", "refused"]),
    "C23": dict(crates=["hst"], bounds="written and read: every value of each kind within C10's bounds; signs from every machine type; nested 2 deep; lengths at each change of the length "
                "encoding, short ones also written long; binary in each of its four forms; five text trees by five kinds of text value, every character as a leaf; stores of up to 2 "
                "entries with and without a tree in each of the four forms", outside="matches in lempel ziv blocks",
                assumptions=[HASH, LZ], covers=["written", "read"]),
    "C24": dict(crates=["hdb", "hst"], bounds="every kind of value asked through every accessor and conversion of every kind; all 12x12 machine integer pairs; all 256 type codes; stores of 2 entries under every sequence of up to 3 operations, keys of up to one character",
                assumptions=[HASH],
                covers=["content", "refused"]),
    "C25": dict(crates=["hd"], timeout=400, bounds="values of twelve kinds with free contents, stores of up to 2 entries with free keys and contents; every body of up to 3 bytes; encodings cut "
                "anywhere, extended, or with any one of the first nine bytes replaced; any length and any limit of bodies", outside="longer free bodies",
                assumptions=[HASH, LZ, SYS], covers=["received", "refused"]),
    "C26": dict(crates=["hdb"], bounds="every pair of doubles which are numbers; zeroes, extremes and infinities in all pairs; integer parts of 16 bits and extremes; cartesian form: any "
                "modulus of 8 bits and seven others, cosine and sine from five values each", outside="the precision of the mathematics library",
                assumptions=["atan, atan2, hypot, cos and sin give any result which agrees with sign, quadrant, octant and magnitude of the exact one"],
                covers=["polar", "kept", "cartesian"]),
    "C27": dict(crates=["hdb"], bounds="characters below 256 and eight others; strings of up to 2 ASCII characters with others after them; every binary of up to 3 bytes; integers of 8 bits and "
                "extremes; sixteen doubles and ten singles; timestamps over seven years, with fractions and leap seconds; every time zone; JSON of up to 2 levels; every IPv4 address, IPv6 "
                "addresses with a free group; lists and maps of up to 3 elements", outside="longer content",
                assumptions=["hashbrown's hash function is replaced by a constant one", "output is not to a terminal"], covers=["quoted", "table"]),
    "C28": dict(crates=["hd"], timeout=400, bounds="every command after 4 prior states, with every database and key chosen, new, reserved, taken and refused names, one free character as a name, each "
                "confirmation given or not, left at any question; files of 9 contents, absent or longer before, of which two reads give half; values of all sixteen kinds, with answers which are refused first", outside="the "
                "parsing of command lines; longer typed texts of free content",
                assumptions=[HASH, LZ, SYS, "the questions of dialoguer are answered by a script, command lines are read by a stand-in for clap"], covers=["done", "failed", "left", "no json"]),
    "C29": dict(crates=["hd"], timeout=400, bounds="up to two changes of free content and two saves after 4 prior states, the first save ever included; power lost at every operation on files, or later; then every "
                "first part of the operations on directories since all was kept, or all of them but one, and each file which was not synchronised as before, as it is, cut in half, or blank",
                outside="damage to what was synchronised; two losses in one history",
                assumptions=[HASH, LZ, SYS, FILES], covers=["lost while saving", "lost later"]),
    "C30": dict(crates=["hd"], timeout=400, bounds="three databases, one of five kinds damaged: every content of up to 3 bytes, every cut, any one byte replaced by any other (thorough: any two) or added, "
                "missing, a directory; two listed: every list of up to 3 bytes, every cut, any one byte replaced (thorough: any two), lists of seven kinds of things; six names for files of others", outside="several damaged files",
                assumptions=[HASH, LZ, SYS, FILES], covers=["served", "not served", "starts", "does not start", "missing", "left"]),
    "C31": dict(crates=["hdb"], entry_opts={"^c31_larger_counts$": {"max-steps": 1000000000}}, bounds="every sequence of up to 7 bytes (thorough 9) and 6 characters; 4 symbols of any frequencies up to 8, 5 up to 5 (thorough 6 up to 6), "
                "4 of seven frequencies around 256, 3 around 65536; up to 10 symbols all alike or as uneven as possible; the English code", outside="more symbols with free frequencies",
                assumptions=[HASH], covers=["shortest", "english"]),
}
