---------------------------- MODULE DeltaImplMC -----------------------------
EXTENDS DeltaImpl
UserOfMC(p) == p
=============================================================================
