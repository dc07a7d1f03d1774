INIT Init
NEXT Next
INVARIANTS
  LoadedIffAvailable BrokenIsFatal RequiredIsComplete NeverReportsNil OneLocalePerLanguage
  LocalizersWorkInKnownLanguages ReportsOnlyMisses SilentIfNotConfigured ReportsBounded ErrorIffNotDelivered
  Judge
CONSTRAINT LogExplains
