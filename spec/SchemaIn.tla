------------------------------ MODULE SchemaIn ------------------------------
(* The schema under study: the same file from which the Rust declarations are generated. *)
EXTENDS Json, IOUtils
Schema == JsonDeserialize(IOEnv.TT_SCHEMA)
=============================================================================
