//! Stand-in for `itertools`: joining.
pub trait Itertools: Iterator {
    fn join(&mut self, sep: &str) -> String
    where
        Self::Item: core::fmt::Display,
    {
        let mut r = String::new();
        let mut first = true;
        for x in self {
            if !first {
                r.push_str(sep);
            }
            first = false;
            r.push_str(&x.to_string());
        }
        r
    }
    fn collect_vec(self) -> Vec<Self::Item>
    where
        Self: Sized,
    {
        self.collect()
    }
}
impl<T: Iterator + ?Sized> Itertools for T {}
