pub(crate) mod soft;
