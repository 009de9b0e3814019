---------------------------- MODULE HikuMergeCases ----------------------------
EXTENDS HikuCases
M == INSTANCE HikuMerge WITH Size <- 0, Lists <- 0, ns <- case, shown <- decided
BadCase(c) == M!BadMerge(c)
=============================================================================
