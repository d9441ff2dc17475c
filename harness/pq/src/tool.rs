// The schema tool itself, built here so that nothing is built inside /repo (P11).
include!("/repo/parquet/src/bin/schema.rs");
