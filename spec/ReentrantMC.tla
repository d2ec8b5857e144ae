---------------------------- MODULE ReentrantMC -----------------------------
EXTENDS ReentrantAlgo
MCCalls == <<"p", "q", "r", "p">>
=============================================================================
