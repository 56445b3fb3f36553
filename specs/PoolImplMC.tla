----------------------------- MODULE PoolImplMC -----------------------------
EXTENDS PoolImpl, IOUtils, Json
Programs == JsonDeserialize(IOEnv.PROGS)
P0 == [c \in Clients |-> Programs[c]]
=============================================================================
