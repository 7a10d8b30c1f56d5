--------------------------- MODULE PackagesTrace ---------------------------
EXTENDS Packages, TraceKit
PInit(c) == PkgInit
=============================================================================
