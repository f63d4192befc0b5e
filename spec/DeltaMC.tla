------------------------------ MODULE DeltaMC -------------------------------
EXTENDS Delta
UserOfMC(p) == p \div 2
MaxRecsMC == 1

=============================================================================
