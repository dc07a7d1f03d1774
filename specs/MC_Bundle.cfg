INIT Init
NEXT Next
INVARIANTS
  LoadedIffAvailable BrokenIsFatal RequiredIsComplete NoOptionNeverFails NeverReportsNil
  SilentWithoutCallback OneLocalePerLanguage EmitFinal
