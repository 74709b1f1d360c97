SPECIFICATION Spec
CONSTANTS
  Keys_ = {"x", "a:b", "zz.1/q-_"}
  Values_ = {"", " v w ", "= 1", ":= x", "[RO] = 3", "$A{", "block b"}
  Descrs = {"", "endblock", "# x = 1"}
INVARIANT RoundTrip
CHECK_DEADLOCK FALSE
