------------------------------ MODULE ZoneTable ------------------------------
(* The timezone database: read from a file, as the library does.            *)
EXTENDS Json, IOUtils
ZoneData == JsonDeserialize(IOEnv.WHENEVER_ZONES)
=============================================================================
