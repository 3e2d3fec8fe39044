SPECIFICATION Spec
VIEW View
INVARIANTS Represents Disjoint CapacityExact AdvertisedIsExact
CHECK_DEADLOCK FALSE
