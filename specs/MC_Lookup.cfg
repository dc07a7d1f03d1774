INIT Init
NEXT Next
INVARIANTS
  LoadedIffAvailable RequiredIsComplete NeverReportsNil OneLocalePerLanguage
  LocalizersWorkInKnownLanguages ReportsOnlyMisses SilentIfNotConfigured ReportsBounded ErrorIffNotDelivered AlwaysAText
  EmitFinal
