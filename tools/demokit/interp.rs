pub struct TreeFn;
