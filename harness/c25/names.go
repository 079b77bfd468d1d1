package c25

// The names of ASHRAE 135 by number; "" where the library names none.

var unitNames = [...]string{
	"SquareMeters", "SquareFeet", "Milliamperes", "Amperes", "Ohms", "Volts", "Kilovolts", "Megavolts",
	"VoltAmperes", "KilovoltAmperes", "MegavoltAmperes", "VoltAmperesReactive", "KilovoltAmperesReactive", "MegavoltAmperesReactive", "DegreesPhase", "PowerFactor",
	"Joules", "Kilojoules", "WattHours", "KilowattHours", "Btus", "Therms", "TonHours", "JoulesPerKilogramDryAir",
	"BtusPerPoundDryAir", "CyclesPerHour", "CyclesPerMinute", "Hertz", "GramsOfWaterPerKilogramDryAir", "PercentRelativeHumidity", "Millimeters", "Meters",
	"Inches", "Feet", "WattsPerSquareFoot", "WattsPerSquareMeter", "Lumens", "Luxes", "FootCandles", "Kilograms",
	"PoundsMass", "Tons", "KilogramsPerSecond", "KilogramsPerMinute", "KilogramsPerHour", "PoundsMassPerMinute", "PoundsMassPerHour", "Watts",
	"Kilowatts", "Megawatts", "BtusPerHour", "Horsepower", "TonsRefrigeration", "Pascals", "Kilopascals", "Bars",
	"PoundsForcePerSquareInch", "CentimetersOfWater", "InchesOfWater", "MillimetersOfMercury", "CentimetersOfMercury", "InchesOfMercury", "DegreesCelsius", "DegreesKelvin",
	"DegreesFahrenheit", "DegreeDaysCelsius", "DegreeDaysFahrenheit", "Years", "Months", "Weeks", "Days", "Hours",
	"Minutes", "Seconds", "MetersPerSecond", "KilometersPerHour", "FeetPerSecond", "FeetPerMinute", "MilesPerHour", "CubicFeet",
	"CubicMeters", "ImperialGallons", "Liters", "UsGallons", "CubicFeetPerMinute", "CubicMetersPerSecond", "ImperialGallonsPerMinute", "LitersPerSecond",
	"LitersPerMinute", "USGallonsPerMinute", "DegreesAngular", "DegreesCelsiusPerHour", "DegreesCelsiusPerMinute", "DegreesFahrenheitPerHour", "DegreesFahrenheitPerMinute", "NoUnits",
	"PartsPerMillion", "PartsPerBillion", "Percent", "PercentPerSecond", "PerMinute", "PerSecond", "PsiPerDegreeFahrenheit", "Radians",
	"RevolutionsPerMinute", "", "", "", "", "", "", "",
	"", "", "", "SquareInches", "SquareCentimeters", "BtusPerPound", "Centimeters", "PoundsMassPerSecond",
	"DeltaDegreesFahrenheit", "DeltaDegreesKelvin", "Kilohms", "Megohms", "Millivolts", "KilojoulesPerKilogram", "Megajoules", "JoulesPerDegreeKelvin",
	"JoulesPerKilogramDegreeKelvin", "Kilohertz", "Megahertz", "PerHour", "Milliwatts", "Hectopascals", "Millibars", "CubicMetersPerHour",
	"LitersPerHour", "KwHoursPerSquareMeter", "KwHoursPerSquareFoot", "MegajoulesPerSquareMeter", "MegajoulesPerSquareFoot", "WattsPerSquareMeterDegreeKelvin", "CubicFeetPerSecond", "PercentObscurationPerFoot",
	"PercentObscurationPerMeter", "Milliohms", "MegawattHours", "KiloBtus", "MegaBtus", "KilojoulesPerKilogramDryAir", "MegajoulesPerKilogramDryAir", "KilojoulesPerDegreeKelvin",
	"MegajoulesPerDegreeKelvin", "Newton", "GramsPerSecond", "GramsPerMinute", "TonsPerHour", "KiloBtusPerHour", "HundredthsSeconds", "Milliseconds",
	"NewtonMeters", "MillimetersPerSecond", "MillimetersPerMinute", "MetersPerMinute", "MetersPerHour", "CubicMetersPerMinute", "MetersPerSecondPerSecond", "AmperesPerMeter",
	"AmperesPerSquareMeter", "AmpereSquareMeters", "Farads", "Henrys", "OhmMeters", "Siemens", "SiemensPerMeter", "Teslas",
	"VoltsPerDegreeKelvin", "VoltsPerMeter", "Webers", "Candelas", "CandelasPerSquareMeter", "DegreesKelvinPerHour", "DegreesKelvinPerMinute", "JouleSeconds",
	"RadiansPerSecond", "SquareMetersPerNewton", "KilogramsPerCubicMeter", "NewtonSeconds", "NewtonsPerMeter", "WattsPerMeterPerDegreeKelvin", "Microsiemens", "CubicFeetPerHour",
	"USGallonsPerHour", "Kilometers", "Micrometers", "Grams", "Milligrams", "Milliliters", "MillilitersPerSecond", "Decibels",
	"DecibelsMillivolt", "DecibelsVolt", "Millisiemens", "WattHoursReactive", "KilowattHoursReactive", "MegawattHoursReactive", "MillimetersOfWater", "PerMille",
	"GramsPerGram", "KilogramsPerKilogram", "GramsPerKilogram", "MilligramsPerGram", "MilligramsPerKilogram", "GramsPerMilliliter", "GramsPerLiter", "MilligramsPerLiter",
	"MicrogramsPerLiter", "GramsPerCubicMeter", "MilligramsPerCubicMeter", "MicrogramsPerCubicMeter", "NanogramsPerCubicMeter", "GramsPerCubicCentimeter", "Becquerels", "",
	"Megabecquerels", "Gray", "Milligray", "Microgray", "Sieverts", "Millisieverts", "Microsieverts", "MicrosievertsPerHour",
	"DecibelsA", "NephelometricTurbidityUnit", "Ph", "GramsPerSquareMeter", "MinutesPerDegreeKelvin",
}

var codeNames = [...]string{
	"Other", "AuthenticationFailed", "ConfigurationInProgress", "DeviceBusy", "DynamicCreationNotSupported", "FileAccessDenied", "IncompatibleSecurityLevels", "InconsistentParameters",
	"InconsistentSelectionCriterion", "InvalidDataType", "InvalidFileAccessMethod", "InvalidFileStartPosition", "InvalidOperatorName", "InvalidParameterDataType", "InvalidTimeStamp", "KeyGenerationError",
	"MissingRequiredParameter", "NoObjectsOfSpecifiedType", "NoSpaceForObject", "NoSpaceToAddListElement", "NoSpaceToWriteProperty", "NoVtSessionsAvailable", "PropertyIsNotAList", "ObjectDeletionNotPermitted",
	"ObjectIdentifierAlreadyExists", "OperationalProblem", "PasswordFailure", "ReadAccessDenied", "SecurityNotSupported", "ServiceRequestDenied", "Timeout", "UnknownObject",
	"UnknownProperty", "", "UnknownVtClass", "UnknownVtSession", "UnsupportedObjectType", "ValueOutOfRange", "VtSessionAlreadyClosed", "VtSessionTerminationFailure",
	"WriteAccessDenied", "CharacterSetNotSupported", "InvalidArrayIndex", "CovSubscriptionFailed", "NotCovProperty", "OptionalFunctionalityNotSupported", "InvalidConfigurationData", "DatatypeNotSupported",
	"DuplicateName", "DuplicateObjectID", "PropertyIsNotAnArray", "AbortBufferOverflow", "AbortInvalidApduInThisState", "AbortPreemptedByHigherPriorityTask", "AbortSegmentationNotSupported", "AbortProprietary",
	"AbortOther", "InvalidTag", "NetworkDown", "RejectBufferOverflow", "RejectInconsistentParameters", "RejectInvalidParameterDataType", "RejectInvalidTag", "RejectMissingRequiredParameter",
	"RejectParameterOutOfRange", "RejectTooManyArguments", "RejectUndefinedEnumeration", "RejectUnrecognizedService", "RejectProprietary", "RejectOther", "UnknownDevice", "UnknownRoute",
	"ValueNotInitialized", "InvalidEventState", "NoAlarmConfigured", "LogBufferFull", "LoggedValuePurged", "NoPropertySpecified", "NotConfiguredForTriggeredLogging", "UnknownSubscription",
	"ParameterOutOfRange", "ListElementNotFound", "Busy", "CommunicationDisabled", "Success", "AccessDenied", "BadDestinationAddress", "BadDestinationDeviceID",
	"BadSignature", "BadSourceAddress", "BadTimestamp", "CannotUseKey", "CannotVerifyMessageID", "CorrectKeyRevision", "DestinationDeviceIDRequired", "DuplicateMessage",
	"EncryptionNotConfigured", "EncryptionRequired", "IncorrectKey", "InvalidKeyData", "KeyUpdateInProgress", "MalformedMessage", "NotKeyServer", "SecurityNotConfigured",
	"SourceSecurityRequired", "TooManyKeys", "UnknownAuthenticationType", "UnknownKey", "UnknownKeyRevision", "UnknownSourceMessage", "NotRouterToDnet", "RouterBusy",
	"UnknownNetworkMessage", "MessageTooLong", "SecurityErrorCode", "AddressingError", "WriteBdtFailed", "ReadBdtFailed", "RegisterForeignDeviceFailed", "ReadFdtFailed",
	"DeleteFdtEntryFailed", "DistributeBroadcastFailed", "UnknownFileSize", "AbortApduTooLong", "AbortApplicationExceededReplyTime", "AbortOutOfResources", "AbortTsmTimeout", "AbortWindowSizeOutOfRange",
	"FileFull", "InconsistentConfiguration", "InconsistentObjectType", "InternalError", "NotConfigured", "OutOfMemory", "ValueTooLong", "AbortInsufficientSecurity",
	"AbortSecurityError",
}

var classNames = [...]string{
	"DeviceError", "ObjectError", "PropertyError", "ResourcesError", "SecurityError", "ServicesError", "VTError", "CommunicationError",
}
