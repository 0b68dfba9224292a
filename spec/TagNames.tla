------------------------------ MODULE TagNames ------------------------------
(* Names of the tags, by table (data extracted from the TIFF, Exif and       *)
(* vendor documentation as published by the library, see tools/mktags.py).   *)
EXTENDS Json, TLC
Tables == JsonDeserialize("data/tags.json")
NameIn(t, tag) == IF t = "" THEN ""
                  ELSE LET k == ToString(tag) IN IF k \in DOMAIN Tables[t] THEN Tables[t][k] ELSE ""
=============================================================================
