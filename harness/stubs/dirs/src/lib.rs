use std::path::PathBuf;
pub fn data_dir() -> Option<PathBuf> {
    Some(PathBuf::from("/home/u/share"))
}
pub fn data_local_dir() -> Option<PathBuf> {
    data_dir()
}
pub fn home_dir() -> Option<PathBuf> {
    Some(PathBuf::from("/home/u"))
}
