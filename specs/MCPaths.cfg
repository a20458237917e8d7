SPECIFICATION Spec
CONSTANT MaxLen = 4
CONSTANT Alphabet <- AlphabetQ
INVARIANTS CleanIdem SamePlace NoDots UpDown UpShorter DirName DirExists StripSame NameNoSep RootIsRoot
CHECK_DEADLOCK FALSE
