--------------------------- MODULE HikuSchemaCases ----------------------------
EXTENDS HikuSchema, HikuCases
BadCase(c) == IF "names" \in DOMAIN c THEN BadNames(c) ELSE BadSchema(c)
=============================================================================
