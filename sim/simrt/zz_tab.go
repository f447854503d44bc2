package simrt

// Inst is replaced (through the build overlay) by the instrumenter.
var Inst = Instrumentation{NonSerial: "not instrumented"}
