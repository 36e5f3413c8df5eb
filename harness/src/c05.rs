include!("ops.inc");
