--------------------------- MODULE HikuGraphQLCases ---------------------------
EXTENDS HikuGraphQL, HikuCases
BadCase(c) == BadRead(c)
=============================================================================
