/// `for` runs over what is an iterator itself
pub fn for_iter__<T>(x: T) -> (r: T) ensures r == x { x }
