pub mod trace {
    #[derive(Clone, Debug)]
    pub struct TraceLayer;
    impl TraceLayer {
        pub fn new_for_http() -> Self {
            TraceLayer
        }
    }
}
