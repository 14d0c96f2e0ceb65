package zzsim

// NumStmts is replaced by the instrumenter.
const NumStmts = 1 << 16
