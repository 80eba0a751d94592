SPECIFICATION Spec
CONSTANTS
    Names = {"GardnerKnopoff", "Stepp", "Store_eq_catalog", "Nonsense"}
    MaxLen = 3
INVARIANTS KnownOnly ReadFirst StoreAfterSelect RetrieveAlone
    NothingStoredUnasked InOrder
PROPERTY Ends
CHECK_DEADLOCK FALSE
