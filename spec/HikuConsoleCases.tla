--------------------------- MODULE HikuConsoleCases ---------------------------
EXTENDS HikuConsole, HikuCases
BadCase(c) == BadConsole(c)
=============================================================================
