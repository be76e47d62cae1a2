pub struct Builder;
pub struct Bindings;
impl Default for Builder {
    fn default() -> Self {
        Builder
    }
}
impl Builder {
    pub fn header<T: Into<String>>(self, _h: T) -> Self {
        self
    }
    pub fn generate(self) -> Result<Bindings, String> {
        Err("stand-in".to_string())
    }
}
impl Bindings {
    pub fn write_to_file<P: AsRef<std::path::Path>>(&self, _p: P) -> std::io::Result<()> {
        Ok(())
    }
}
