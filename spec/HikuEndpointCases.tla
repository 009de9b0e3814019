-------------------------- MODULE HikuEndpointCases ---------------------------
EXTENDS HikuEndpoint, HikuCases
BadCase(c) == BadEndpoint(c)
=============================================================================
