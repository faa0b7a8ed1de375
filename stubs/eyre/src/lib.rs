pub struct Report;
impl<E: std::error::Error> From<E> for Report {
    fn from(_: E) -> Self {
        Report
    }
}
pub type Result<T> = core::result::Result<T, Report>;
