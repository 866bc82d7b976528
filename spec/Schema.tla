-------------------------------- MODULE Schema ------------------------------
(* The interface classes: attributes with their types, whether the meter     *)
(* changes them itself (2), they are settings (1) or it is not said (0), the *)
(* value given when nothing else is known and the one a new object has;      *)
(* methods with the types of their parameters.                               *)
EXTENDS Types

\* without a value at first; with its ordinary value; with another one; z = <<>>: no ordinary value
A(n, t, c, z) == [n |-> n, t |-> t, c |-> c, z |-> z, i |-> <<>>]
B(n, t, c, z) == [n |-> n, t |-> t, c |-> c, z |-> z, i |-> z]
C(n, t, c, z, i) == [n |-> n, t |-> t, c |-> c, z |-> z, i |-> i]
M(n, t, z) == [n |-> n, t |-> t, z |-> z]
N == B("logical_name", OfSize(9, <<<<6, 6>>>>), 1, <<9, 6, 0, 0, 1, 0, 0, 255>>)

ModemResults == <<
  <<79, 75>>,
  <<67, 79, 78, 78, 69, 67, 84>>,
  <<82, 73, 78, 71>>,
  <<78, 79, 32, 67, 65, 82, 82, 73, 69, 82>>,
  <<69, 82, 82, 79, 82>>,
  <<67, 79, 78, 78, 69, 67, 84, 32, 49, 32, 50, 48, 48>>,
  <<78, 79, 32, 68, 73, 65, 76, 32, 84, 79, 78, 69>>,
  <<66, 85, 83, 89>>,
  <<78, 79, 32, 65, 78, 83, 87, 69, 82>>,
  <<67, 79, 78, 78, 69, 67, 84, 32, 54, 48, 48>>,
  <<67, 79, 78, 78, 69, 67, 84, 32, 50, 32, 52, 48, 48>>,
  <<67, 79, 78, 78, 69, 67, 84, 32, 52, 32, 56, 48, 48>>,
  <<67, 79, 78, 78, 69, 67, 84, 32, 57, 32, 54, 48, 48>>,
  <<67, 79, 78, 78, 69, 67, 84, 32, 49, 52, 32, 52, 48, 48>>,
  <<67, 79, 78, 78, 69, 67, 84, 32, 50, 56, 32, 56, 48, 48>>,
  <<67, 79, 78, 78, 69, 67, 84, 32, 51, 54, 32, 54, 48, 48>>,
  <<67, 79, 78, 78, 69, 67, 84, 32, 53, 54, 32, 48, 48, 48>>>>

TyCommonDataTypeChoice == Choice(<<Leaf(0), Leaf(3), Leaf(4), Leaf(5), Leaf(6), Leaf(9), Leaf(10), Leaf(12), Leaf(13), Leaf(15), Leaf(16), Leaf(17), Leaf(18), Leaf(20), Leaf(21), Leaf(22), Leaf(23), Leaf(24), Leaf(25), Leaf(26), Leaf(27), AnyArray, AnyStruct>>)
TyRegisterChoice == Choice(<<Leaf(0), Leaf(4), Leaf(6), Leaf(9), Leaf(10), Leaf(12), Leaf(17), Leaf(18), Leaf(21), Leaf(5), Leaf(15), Leaf(16), Leaf(20), Leaf(22), Leaf(23), Leaf(24)>>)
TyUnit == Ranged(22, <<<<1, 255>>>>)
TyScalUnitType == Struct(<<Leaf(15), TyUnit>>)
TyOnly0 == Ranged(15, <<<<0, 0>>>>)
TyExtendedRegisterChoice == Choice(<<Leaf(0), Leaf(4), Leaf(6), Leaf(9), Leaf(10), Leaf(12), Leaf(17), Leaf(18), Leaf(21)>>)
TyLogicalName == OfSize(9, <<<<6, 6>>>>)
TyObjectDefinition == Struct(<<Leaf(18), TyLogicalName>>)
TyRegisterAssignment == ArrayOf(TyObjectDefinition)
TyIndexArray == ArrayOf(Leaf(17))
TyRegisterActMask == Struct(<<Leaf(9), TyIndexArray>>)
TyMaskList == ArrayOf(TyRegisterActMask)
TyCaptureObjectDefinition == Struct(<<Leaf(18), TyLogicalName, Leaf(15), Leaf(18)>>)
TyCaptureObjects == ArrayOf(TyCaptureObjectDefinition)
TySortMethod == Ranged(22, <<<<1, 6>>>>)
TyDaylightSavingsDeviation == Ranged(15, <<<<-120, 120>>>>)
TyClockBase == Ranged(22, <<<<0, 5>>>>)
TyPresetAdjustingTime == Struct(<<Leaf(25), Leaf(25), Leaf(25)>>)
TyShiftTime == Ranged(16, <<<<-900, 900>>>>)
TyServiceId == Ranged(22, <<<<1, 2>>>>)
TyActionSpecification == Struct(<<TyServiceId, Leaf(18), TyLogicalName, Leaf(15), TyCommonDataTypeChoice>>)
TyActions == ArrayOf(TyActionSpecification)
TyScript == Struct(<<Leaf(18), TyActions>>)
TyScripts == ArrayOf(TyScript)
TyIndex == Ranged(18, <<<<1, 9999>>>>)
TyScheduleTableEntry == Struct(<<TyIndex, Leaf(3), TyLogicalName, Leaf(18), TimeOctets, Leaf(18), Leaf(4), Leaf(4), DateOctets, DateOctets>>)
TyEntries == KeyedBy(0, TyScheduleTableEntry)
TyDataED == Struct(<<TyIndex, TyIndex, TyIndex, TyIndex>>)
TyDataDelete == Struct(<<TyIndex, TyIndex>>)
TySpecDayEntry == Struct(<<Leaf(18), DateOctets, Leaf(17)>>)
TyEntries2 == KeyedBy(1, TySpecDayEntry)
TyAccessMode == Ranged(22, <<<<0, 3>>>>)
TyAccessSelectorsChoice == Choice(<<Leaf(0), AnyArray>>)
TyAttributeAccessItem == Struct(<<Leaf(15), TyAccessMode, TyAccessSelectorsChoice>>)
TyAttributeAccessDescriptor == ArrayOf(TyAttributeAccessItem)
TyMethodAccessItem == Struct(<<Leaf(15), Leaf(3)>>)
TyMethodAccessDescriptor == ArrayOf(TyMethodAccessItem)
TyAccessRight == Struct(<<TyAttributeAccessDescriptor, TyMethodAccessDescriptor>>)
TyObjectListElement == Struct(<<Leaf(18), Leaf(17), TyLogicalName, TyAccessRight>>)
TyObjectListType == ArrayOf(TyObjectListElement)
TyClientSAP == Ranged(15, <<<<0, 1>>, <<16, 16>>, <<32, 32>>, <<48, 48>>, <<64, 64>>, <<80, 80>>, <<96, 96>>>>)
TyServerSAP == Ranged(18, <<<<0, 16383>>>>)
TyAssociatedPartnersType == Struct(<<TyClientSAP, TyServerSAP>>)
TyApplicationContextName == Struct(<<Leaf(17), Leaf(17), Leaf(18), Leaf(17), Leaf(17), Leaf(17), Leaf(17)>>)
TyConformance == OfSize(4, <<<<24, 24>>>>)
TyXDLMSContextType == Struct(<<TyConformance, Leaf(18), Leaf(18), Leaf(17), Leaf(15), Leaf(9)>>)
TyMechanismIdElement == Ranged(17, <<<<0, 7>>>>)
TyAuthenticationMechanismName == Struct(<<Leaf(17), Leaf(17), Leaf(18), Leaf(17), Leaf(17), Leaf(17), TyMechanismIdElement>>)
TyAssociationStatus == Ranged(22, <<<<0, 2>>>>)
TyAccessMode2 == Ranged(22, <<<<0, 6>>>>)
TyAttributeAccessItem2 == Struct(<<Leaf(15), TyAccessMode2, TyAccessSelectorsChoice>>)
TyAttributeAccessDescriptor2 == ArrayOf(TyAttributeAccessItem2)
TyAccessModeMeth == Ranged(22, <<<<0, 2>>>>)
TyMethodAccessItem2 == Struct(<<Leaf(15), TyAccessModeMeth>>)
TyMethodAccessDescriptor2 == ArrayOf(TyMethodAccessItem2)
TyAccessRight2 == Struct(<<TyAttributeAccessDescriptor2, TyMethodAccessDescriptor2>>)
TyObjectListElement2 == Struct(<<Leaf(18), Leaf(17), TyLogicalName, TyAccessRight2>>)
TyObjectListType2 == ArrayOf(TyObjectListElement2)
TyContextNameType == OidOf(Struct(<<Leaf(17), Leaf(17), Leaf(18), Leaf(17), Leaf(17), Leaf(17), Leaf(17)>>))
TyMechanismNameType == OidOf(Struct(<<Leaf(17), Leaf(17), Leaf(18), Leaf(17), Leaf(17), Leaf(17), TyMechanismIdElement>>))
TyImageTransferStatus == Ranged(22, <<<<0, 7>>>>)
TyImageToActivateInfoElement == Struct(<<Leaf(6), Leaf(9), Leaf(9)>>)
TyImageToActivateInfo == ArrayOf(TyImageToActivateInfoElement)
TyImageTransferInitiate == Struct(<<Leaf(9), Leaf(6)>>)
TyImageBlockTransfer == Struct(<<Leaf(6), Leaf(9)>>)
TySeason == Struct(<<Leaf(9), DateTimeOctets, Leaf(9)>>)
TySeasonProfile == KeyedBy(1, TySeason)
TyWeekProfile == Struct(<<Leaf(9), Leaf(17), Leaf(17), Leaf(17), Leaf(17), Leaf(17), Leaf(17), Leaf(17)>>)
TyWeekProfileTable == KeyedBy(1, TyWeekProfile)
TyDayProfileAction == Struct(<<TimeOctets, TyLogicalName, Leaf(18)>>)
TyDaySchedule == ArrayOf(TyDayProfileAction)
TyDayProfile == Struct(<<Leaf(17), TyDaySchedule>>)
TyDayProfileTable == KeyedBy(1, TyDayProfile)
TySimpleDataTypeChoice == Choice(<<Leaf(0), Leaf(3), Leaf(4), Leaf(5), Leaf(6), Leaf(9), Leaf(10), Leaf(12), Leaf(13), Leaf(15), Leaf(16), Leaf(17), Leaf(18), Leaf(20), Leaf(21), Leaf(22), Leaf(23), Leaf(24), Leaf(25), Leaf(26), Leaf(27)>>)
TyThresholds == ArrayOf(TySimpleDataTypeChoice)
TyValueDefinition == Struct(<<Leaf(18), TyLogicalName, Leaf(15)>>)
TyActionItem == Struct(<<TyLogicalName, Leaf(18)>>)
TyActionSet == Struct(<<TyActionItem, TyActionItem>>)
TyActions2 == ArrayOf(TyActionSet)
TyTYPE == Ranged(22, <<<<1, 5>>>>)
TyExecutionTimeDate == Struct(<<TimeOctets, DateOctets>>)
TyExecutionTime == ArrayOf(TyExecutionTimeDate)
TyCommSpeed == Ranged(22, <<<<0, 9>>>>)
TyInitializationStringElement == Struct(<<Leaf(9), Leaf(9)>>)
TyInitializationString == ArrayOf(TyInitializationStringElement)
TyModemProfileElement == OneOf(9, ModemResults)
TyModemProfile == ArrayOf(TyModemProfileElement)
TyInitializationStringElement2 == Struct(<<Leaf(9), Leaf(9), Leaf(18)>>)
TyInitializationString2 == ArrayOf(TyInitializationStringElement2)
TyMulticastIPAddress == ArrayOf(Leaf(6))
TyIPOptionsElement == Struct(<<Leaf(17), Leaf(17), Leaf(9)>>)
TyIPOptions == ArrayOf(TyIPOptionsElement)
TyQoSElement == Struct(<<Leaf(17), Leaf(17), Leaf(17), Leaf(17), Leaf(17)>>)
TyQualityOfService == Struct(<<TyQoSElement, TyQoSElement>>)
TyStatus == Ranged(22, <<<<0, 5>>>>)
TyCSAttachment == Ranged(22, <<<<0, 2>>>>)
TyPSStatus == Ranged(22, <<<<0, 4>>>>)
TyCellInfoType == Struct(<<Leaf(18), Leaf(18), Leaf(17), Leaf(17)>>)
TyAdjacentCellInfo == Struct(<<Leaf(18), Leaf(17)>>)
TyAdjacentCells == ArrayOf(TyAdjacentCellInfo)
TyPSStatus2 == Ranged(22, <<<<0, 6>>>>)
TyCellInfoType2 == Struct(<<Leaf(6), Leaf(18), Leaf(17), Leaf(17), Leaf(18), Leaf(18), Leaf(6)>>)
TyAdjacentCellInfo2 == Struct(<<Leaf(6), Leaf(17)>>)
TyAdjacentCells2 == ArrayOf(TyAdjacentCellInfo2)
TyRestrictionType == Ranged(22, <<<<0, 2>>>>)
TyRestrictionByDate == Struct(<<DateOctets, DateOctets>>)
TyRestrictionByEntry == Struct(<<Leaf(6), Leaf(6)>>)
TyRestrictionElement == Switch(TyRestrictionType, <<<<0, Leaf(0)>>, <<1, TyRestrictionByDate>>, <<2, TyRestrictionByEntry>>>>)
TyColumnElement == ArrayOf(TyCaptureObjectDefinition)
TyPushObjectDefinition == Struct(<<Leaf(18), TyLogicalName, Leaf(15), Leaf(18), TyRestrictionElement, TyColumnElement>>)
TyPushObjectList == ArrayOf(TyPushObjectDefinition)
TyTransportServiceType == Ranged(22, <<<<0, 8>>, <<200, 255>>>>)
TyMessageType == Ranged(22, <<<<0, 1>>, <<128, 255>>>>)
TySendDestinationAndMethod == Struct(<<TyTransportServiceType, Leaf(9), TyMessageType>>)
TyWindowElement == Struct(<<DateTimeOctets, DateTimeOctets>>)
TyCommunicationWindow == ArrayOf(TyWindowElement)
TyRepetitionDelay == Struct(<<Leaf(18), Leaf(18), Leaf(18)>>)
TyProtectionType == Ranged(22, <<<<0, 3>>>>)
TyKeyInfoType == Ranged(22, <<<<0, 2>>>>)
TyIdentifiedKeyInfoOptions == Ranged(22, <<<<0, 1>>>>)
TyKEKId == Ranged(22, <<<<0, 0>>>>)
TyWrappedKeyInfoOptions == Struct(<<TyKEKId, Leaf(9)>>)
TyAgreedKeyInfoOptions == Struct(<<Leaf(9), Leaf(9)>>)
TyKeyInfoElement == Switch(TyKeyInfoType, <<<<0, TyIdentifiedKeyInfoOptions>>, <<1, TyWrappedKeyInfoOptions>>, <<2, TyAgreedKeyInfoOptions>>>>)
TyProtectionOptions == Struct(<<Leaf(9), Leaf(9), Leaf(9), Leaf(9), TyKeyInfoElement>>)
TyProtectionParametersElement == Struct(<<TyProtectionType, TyProtectionOptions>>)
TyPushProtectionParameters == ArrayOf(TyProtectionParametersElement)
TyPushOperationMethod == Ranged(22, <<<<0, 2>>>>)
TyConfirmationParameters == Struct(<<Leaf(25), Leaf(6)>>)
TySecurityPolicy == Ranged(22, <<<<0, 15>>>>)
TySecuritySuite == Ranged(22, <<<<0, 15>>>>)
TyKeyID == Ranged(22, <<<<0, 2>>>>)
TyKeyData == Struct(<<TyKeyID, Leaf(9)>>)
TyGlobalKeyTransfer == ArrayOf(TyKeyData)
TySecuritySuite2 == Ranged(22, <<<<0, 2>>>>)
TyCertificateEntity == Ranged(22, <<<<0, 3>>>>)
TyCertificateType == Ranged(22, <<<<0, 3>>>>)
TyCertificateInfo == Struct(<<TyCertificateEntity, TyCertificateType, Leaf(9), Leaf(9), Leaf(9), Leaf(9)>>)
TyCertificates == ArrayOf(TyCertificateInfo)
TyKeyID2 == Ranged(22, <<<<0, 3>>>>)
TyKeyTransferData == Struct(<<TyKeyID2, Leaf(9)>>)
TyKeyTransfer == ArrayOf(TyKeyTransferData)
TyKeyAgreementData == Struct(<<TyKeyID2, Leaf(9)>>)
TyKeyAgreement == ArrayOf(TyKeyAgreementData)
TyKeyPair == Ranged(22, <<<<0, 2>>>>)
TyCertificateIdentificationType == Ranged(22, <<<<0, 1>>>>)
TyCertificateIdentificationByEntity == Struct(<<TyCertificateEntity, TyCertificateType, Leaf(9)>>)
TyCertificateIdentificationBySerial == Struct(<<Leaf(9), Leaf(9)>>)
TyCertificateIdentification == Switch(TyCertificateIdentificationType, <<<<0, TyCertificateIdentificationByEntity>>, <<1, TyCertificateIdentificationBySerial>>>>)
TyActions3 == ArrayOf(TyActionItem)
TyPermissionsTable == ArrayOf(Leaf(4))
TyActorWeightingList == ArrayOf(Leaf(18))
TyWeightingsTable == ArrayOf(TyActorWeightingList)
TyMostRecentRequestTable == ArrayOf(Leaf(4))
TyRequestAction == Struct(<<Leaf(17), Leaf(4)>>)
TyOutputState == Leaf(3)
TyControlState == Ranged(22, <<<<0, 2>>>>)
TyControlMode == Ranged(22, <<<<0, 6>>, <<129, 134>>>>)
TyEmergencyProfileType == Struct(<<Leaf(18), DateTimeOctets, Leaf(6)>>)
TyEmergencyProfileGroupIdList == ArrayOf(Leaf(18))
TyActionType == Struct(<<TyActionItem, TyActionItem>>)
TyAuthenticationMethod == Ranged(22, <<<<0, 2>>>>)
TyAuthenticationKey == Struct(<<Leaf(6), Leaf(9)>>)
TyAuthenticationKeys == ArrayOf(TyAuthenticationKey)
TyBitMapData == Struct(<<DateTimeOctets, DateTimeOctets, Leaf(9)>>)
TySPODES3MeasurementPeriodValue == Ranged(17, <<<<1, 3>>, <<5, 5>>, <<10, 10>>, <<15, 15>>, <<20, 20>>, <<30, 30>>, <<60, 60>>>>)
TyDeviceIDobject == Choice(<<Leaf(6), Leaf(9), Leaf(10), Leaf(12), Leaf(17), Leaf(18)>>)
TySPODES3SPODESVersionValue == VersionText
TyKPZGSMPingIPValue == Struct(<<Leaf(17), TyMulticastIPAddress>>)
TyAnyDateTimeChoice == Choice(<<Leaf(25), Leaf(26), Leaf(27), DateTimeOctets, DateOctets, TimeOctets>>)
TyCaptureObjectsDisplayReadout == ArrayOf(TyCaptureObjectDefinition)

K_data_Data ==
  [key |-> "data:Data", id |-> 1, ver |-> 0, attrs |-> <<N,
      A("value", TyCommonDataTypeChoice, 0, <<0>>)>>,
   meths |-> <<>>]
K_implementations_data_DataStatic ==
  [key |-> "implementations.data:DataStatic", id |-> 1, ver |-> 0, attrs |-> <<N,
      A("value", TyCommonDataTypeChoice, 1, <<0>>)>>,
   meths |-> <<>>]
K_implementations_data_DataDynamic ==
  [key |-> "implementations.data:DataDynamic", id |-> 1, ver |-> 0, attrs |-> <<N,
      A("value", TyCommonDataTypeChoice, 2, <<0>>)>>,
   meths |-> <<>>]
K_register_Register ==
  [key |-> "register:Register", id |-> 3, ver |-> 0, attrs |-> <<N,
      A("value", TyRegisterChoice, 0, <<0>>),
      A("scaler_unit", TyScalUnitType, 1, <<2, 2, 15, 0, 22, 1>>)>>,
   meths |-> <<
      M("reset", TyOnly0, <<15, 0>>)>>]
K_extended_register_ExtendedRegister ==
  [key |-> "extended_register:ExtendedRegister", id |-> 4, ver |-> 0, attrs |-> <<N,
      A("value", TyRegisterChoice, 0, <<0>>),
      A("scaler_unit", TyScalUnitType, 1, <<2, 2, 15, 0, 22, 1>>),
      A("status", TyExtendedRegisterChoice, 2, <<0>>),
      A("capture_time", DateTimeOctets, 2, <<9, 12, 7, 228, 1, 1, 255, 0, 0, 0, 0, 0, 180, 255>>)>>,
   meths |-> <<
      M("reset", TyOnly0, <<15, 0>>)>>]
K_demand_register_ver0_DemandRegister ==
  [key |-> "demand_register.ver0:DemandRegister", id |-> 5, ver |-> 0, attrs |-> <<N,
      A("current_average_value", TyRegisterChoice, 2, <<0>>),
      A("last_average_value", TyRegisterChoice, 2, <<0>>),
      A("scaler_unit", TyScalUnitType, 1, <<2, 2, 15, 0, 22, 1>>),
      A("status", TyExtendedRegisterChoice, 2, <<0>>),
      A("capture_time", DateTimeOctets, 2, <<9, 12, 7, 228, 1, 1, 255, 0, 0, 0, 0, 0, 180, 255>>),
      A("start_time_current", DateTimeOctets, 2, <<9, 12, 7, 228, 1, 1, 255, 0, 0, 0, 0, 0, 180, 255>>),
      A("period", Leaf(6), 1, <<6, 0, 0, 0, 0>>),
      B("number_of_periods", Leaf(18), 1, <<18, 0, 1>>)>>,
   meths |-> <<
      M("reset", TyOnly0, <<15, 0>>),
      M("next_period", TyOnly0, <<15, 0>>)>>]
K_register_activation_ver0_RegisterActivation ==
  [key |-> "register_activation.ver0:RegisterActivation", id |-> 6, ver |-> 0, attrs |-> <<N,
      A("register_assignment", TyRegisterAssignment, 1, <<1, 0>>),
      A("mask_list", TyMaskList, 1, <<1, 0>>),
      A("active_mask", Leaf(9), 1, <<9, 0>>)>>,
   meths |-> <<
      M("add_register", TyObjectDefinition, <<2, 2, 18, 0, 1, 9, 6, 0, 0, 1, 0, 0, 255>>),
      M("add_mask", TyRegisterActMask, <<2, 2, 9, 0, 1, 0>>),
      M("delete_mask", Leaf(9), <<9, 0>>)>>]
K_profile_generic_ver1_ProfileGeneric ==
  [key |-> "profile_generic.ver1:ProfileGeneric", id |-> 7, ver |-> 1, attrs |-> <<N,
      B("buffer", AnyArray, 2, <<1, 0>>),
      A("capture_objects", TyCaptureObjects, 1, <<1, 0>>),
      A("capture_period", Leaf(6), 1, <<6, 0, 0, 0, 0>>),
      A("sort_method", TySortMethod, 1, <<22, 1>>),
      A("sort_object", TyCaptureObjectDefinition, 1, <<2, 4, 18, 0, 8, 9, 6, 0, 0, 1, 0, 0, 255, 15, 2, 18, 0, 0>>),
      B("entries_in_use", Leaf(6), 2, <<6, 0, 0, 0, 0>>),
      B("profile_entries", Leaf(6), 1, <<6, 0, 0, 0, 1>>)>>,
   meths |-> <<
      M("reset", TyOnly0, <<15, 0>>),
      M("capture", TyOnly0, <<15, 0>>)>>]
K_clock_Clock ==
  [key |-> "clock:Clock", id |-> 8, ver |-> 0, attrs |-> <<N,
      A("time", DateTimeOctets, 2, <<9, 12, 7, 228, 1, 1, 255, 0, 0, 0, 0, 0, 180, 255>>),
      A("time_zone", Leaf(16), 1, <<16, 0, 0>>),
      A("status", Leaf(17), 2, <<17, 0>>),
      A("daylight_savings_begin", DateTimeOctets, 1, <<9, 12, 7, 228, 1, 1, 255, 0, 0, 0, 0, 0, 180, 255>>),
      A("daylight_savings_end", DateTimeOctets, 1, <<9, 12, 7, 228, 1, 1, 255, 0, 0, 0, 0, 0, 180, 255>>),
      A("daylight_savings_deviation", TyDaylightSavingsDeviation, 1, <<15, 0>>),
      A("daylight_savings_enabled", Leaf(3), 1, <<3, 0>>),
      A("clock_base", TyClockBase, 1, <<22, 0>>)>>,
   meths |-> <<
      M("adjust_to_quarter", TyOnly0, <<15, 0>>),
      M("adjust_to_measuring_period", TyOnly0, <<15, 0>>),
      M("adjust_to_minute", TyOnly0, <<15, 0>>),
      M("adjust_to_preset_time", TyOnly0, <<15, 0>>),
      M("preset_adjusting_time", TyPresetAdjustingTime, <<2, 3, 25, 7, 228, 1, 1, 255, 255, 255, 255, 255, 128, 0, 255, 25, 7, 228, 1, 1, 255, 255, 255, 255, 255, 128, 0, 255, 25, 7, 228, 1, 1, 255, 255, 255, 255, 255, 128, 0, 255>>),
      M("shift_time", TyShiftTime, <<16, 0, 0>>)>>]
K_script_table_ScriptTable ==
  [key |-> "script_table:ScriptTable", id |-> 9, ver |-> 0, attrs |-> <<N,
      B("scripts", TyScripts, 1, <<1, 0>>)>>,
   meths |-> <<
      M("execute", Leaf(18), <<18, 0, 0>>)>>]
K_schedule_Schedule ==
  [key |-> "schedule:Schedule", id |-> 10, ver |-> 0, attrs |-> <<N,
      B("entries", TyEntries, 1, <<1, 0>>)>>,
   meths |-> <<
      M("enable_disable", TyDataED, <<2, 4, 18, 0, 1, 18, 0, 1, 18, 0, 1, 18, 0, 1>>),
      M("insert", TyScheduleTableEntry, <<2, 10, 18, 0, 1, 3, 0, 9, 6, 0, 0, 1, 0, 0, 255, 18, 0, 0, 9, 4, 0, 0, 0, 0, 18, 0, 0, 4, 0, 4, 0, 9, 5, 7, 228, 1, 1, 255, 9, 5, 7, 228, 1, 1, 255>>),
      M("delete", TyDataDelete, <<2, 2, 18, 0, 1, 18, 0, 1>>)>>]
K_special_days_table_SpecialDaysTable ==
  [key |-> "special_days_table:SpecialDaysTable", id |-> 11, ver |-> 0, attrs |-> <<N,
      B("entries", TyEntries2, 1, <<1, 0>>)>>,
   meths |-> <<
      M("insert", TySpecDayEntry, <<2, 3, 18, 0, 0, 9, 5, 7, 228, 1, 1, 255, 17, 0>>),
      M("delete", Leaf(18), <<18, 0, 0>>)>>]
K_association_ln_ver0_AssociationLN ==
  [key |-> "association_ln.ver0:AssociationLN", id |-> 15, ver |-> 0, attrs |-> <<N,
      A("object_list", TyObjectListType, 1, <<1, 0>>),
      B("associated_partners_id", TyAssociatedPartnersType, 1, <<2, 2, 15, 16, 18, 0, 1>>),
      B("application_context_name", TyApplicationContextName, 1, <<2, 7, 17, 2, 17, 16, 18, 0, 116, 17, 5, 17, 8, 17, 1, 17, 1>>),
      B("xDLMS_context_info", TyXDLMSContextType, 1, <<2, 6, 4, 24, 127, 255, 255, 18, 4, 0, 18, 4, 0, 17, 6, 15, 0, 9, 7, 96, 133, 116, 5, 8, 2, 0>>),
      A("authentication_mechanism_name", TyAuthenticationMechanismName, 1, <<2, 7, 17, 2, 17, 16, 18, 2, 244, 17, 5, 17, 8, 17, 2, 17, 0>>),
      A("LLS_secret", Leaf(9), 0, <<9, 0>>),
      B("association_status", TyAssociationStatus, 2, <<22, 0>>)>>,
   meths |-> <<
      M("reply_to_HLS_authentication", Leaf(9), <<9, 0>>),
      M("change_HLS_secret", Leaf(9), <<9, 0>>),
      M("add_object", TyObjectListElement, <<2, 4, 18, 0, 1, 17, 0, 9, 6, 0, 0, 1, 0, 0, 255, 2, 2, 1, 0, 1, 0>>),
      M("remove_object", TyObjectListElement, <<2, 4, 18, 0, 1, 17, 0, 9, 6, 0, 0, 1, 0, 0, 255, 2, 2, 1, 0, 1, 0>>)>>]
K_association_ln_ver1_AssociationLN ==
  [key |-> "association_ln.ver1:AssociationLN", id |-> 15, ver |-> 1, attrs |-> <<N,
      A("object_list", TyObjectListType2, 1, <<1, 0>>),
      B("associated_partners_id", TyAssociatedPartnersType, 1, <<2, 2, 15, 16, 18, 0, 1>>),
      B("application_context_name", TyContextNameType, 1, <<9, 7, 96, 133, 116, 5, 8, 1, 1>>),
      B("xDLMS_context_info", TyXDLMSContextType, 1, <<2, 6, 4, 24, 127, 255, 255, 18, 4, 0, 18, 4, 0, 17, 6, 15, 0, 9, 7, 96, 133, 116, 5, 8, 2, 0>>),
      A("authentication_mechanism_name", TyMechanismNameType, 1, <<9, 7, 96, 133, 116, 5, 8, 2, 0>>),
      A("LLS_secret", Leaf(9), 0, <<9, 0>>),
      B("association_status", TyAssociationStatus, 2, <<22, 0>>),
      B("security_setup_reference", TyLogicalName, 1, <<9, 6, 0, 0, 1, 0, 0, 255>>)>>,
   meths |-> <<
      M("reply_to_HLS_authentication", Leaf(9), <<9, 0>>),
      M("change_HLS_secret", Leaf(9), <<9, 0>>),
      M("add_object", TyObjectListElement2, <<2, 4, 18, 0, 1, 17, 0, 9, 6, 0, 0, 1, 0, 0, 255, 2, 2, 1, 0, 1, 0>>),
      M("remove_object", TyObjectListElement2, <<2, 4, 18, 0, 1, 17, 0, 9, 6, 0, 0, 1, 0, 0, 255, 2, 2, 1, 0, 1, 0>>)>>]
K_association_ln_ver2_AssociationLN ==
  [key |-> "association_ln.ver2:AssociationLN", id |-> 15, ver |-> 2, attrs |-> <<N,
      A("object_list", TyObjectListType2, 1, <<1, 0>>),
      B("associated_partners_id", TyAssociatedPartnersType, 1, <<2, 2, 15, 16, 18, 0, 1>>),
      B("application_context_name", TyContextNameType, 1, <<9, 7, 96, 133, 116, 5, 8, 1, 1>>),
      B("xDLMS_context_info", TyXDLMSContextType, 1, <<2, 6, 4, 24, 127, 255, 255, 18, 4, 0, 18, 4, 0, 17, 6, 15, 0, 9, 7, 96, 133, 116, 5, 8, 2, 0>>),
      A("authentication_mechanism_name", TyMechanismNameType, 1, <<9, 7, 96, 133, 116, 5, 8, 2, 0>>),
      A("LLS_secret", Leaf(9), 0, <<9, 0>>),
      B("association_status", TyAssociationStatus, 2, <<22, 0>>),
      B("security_setup_reference", TyLogicalName, 1, <<9, 6, 0, 0, 1, 0, 0, 255>>)>>,
   meths |-> <<
      M("reply_to_HLS_authentication", Leaf(9), <<9, 0>>),
      M("change_HLS_secret", Leaf(9), <<9, 0>>),
      M("add_object", TyObjectListElement2, <<2, 4, 18, 0, 1, 17, 0, 9, 6, 0, 0, 1, 0, 0, 255, 2, 2, 1, 0, 1, 0>>),
      M("remove_object", TyObjectListElement2, <<2, 4, 18, 0, 1, 17, 0, 9, 6, 0, 0, 1, 0, 0, 255, 2, 2, 1, 0, 1, 0>>)>>]
K_image_transfer_ver0_ImageTransfer ==
  [key |-> "image_transfer.ver0:ImageTransfer", id |-> 18, ver |-> 0, attrs |-> <<N,
      A("image_block_size", Leaf(6), 1, <<6, 0, 0, 0, 0>>),
      A("image_transferred_blocks_status", Leaf(4), 2, <<4, 0>>),
      A("image_first_not_transferred_block_number", Leaf(6), 2, <<6, 0, 0, 0, 0>>),
      A("image_transfer_enabled", Leaf(3), 1, <<3, 0>>),
      A("image_transfer_status", TyImageTransferStatus, 2, <<22, 0>>),
      A("image_to_activate_info", TyImageToActivateInfo, 2, <<1, 0>>)>>,
   meths |-> <<
      M("image_transfer_initiate", TyImageTransferInitiate, <<2, 2, 9, 7, 100, 101, 102, 97, 117, 108, 116, 6, 0, 0, 0, 0>>),
      M("image_block_transfer", TyImageBlockTransfer, <<2, 2, 6, 0, 0, 0, 0, 9, 0>>),
      M("image_verify", TyOnly0, <<15, 0>>),
      M("image_activate", TyOnly0, <<15, 0>>)>>]
K_activity_calendar_ActivityCalendar ==
  [key |-> "activity_calendar:ActivityCalendar", id |-> 20, ver |-> 0, attrs |-> <<N,
      A("calendar_name_active", Leaf(9), 1, <<9, 0>>),
      B("season_profile_active", TySeasonProfile, 1, <<1, 0>>),
      B("week_profile_table_active", TyWeekProfileTable, 1, <<1, 0>>),
      B("day_profile_table_active", TyDayProfileTable, 1, <<1, 0>>),
      A("calendar_name_passive", Leaf(9), 1, <<9, 0>>),
      B("season_profile_passive", TySeasonProfile, 1, <<1, 0>>),
      B("week_profile_table_passive", TyWeekProfileTable, 1, <<1, 0>>),
      B("day_profile_table_passive", TyDayProfileTable, 1, <<1, 0>>),
      A("activate_passive_calendar_time", DateTimeOctets, 1, <<9, 12, 7, 228, 1, 1, 255, 0, 0, 0, 0, 0, 180, 255>>)>>,
   meths |-> <<
      M("activate_passive_calendar", TyOnly0, <<15, 0>>)>>]
K_register_monitor_RegisterMonitor ==
  [key |-> "register_monitor:RegisterMonitor", id |-> 21, ver |-> 0, attrs |-> <<N,
      B("thresholds", TyThresholds, 1, <<1, 0>>),
      A("monitored_value", TyValueDefinition, 1, <<2, 3, 18, 0, 1, 9, 6, 0, 0, 1, 0, 0, 255, 15, 0>>),
      A("actions", TyActions2, 1, <<1, 0>>)>>,
   meths |-> <<>>]
K_single_action_schedule_SingleActionSchedule ==
  [key |-> "single_action_schedule:SingleActionSchedule", id |-> 22, ver |-> 0, attrs |-> <<N,
      A("executed_script", TyActionItem, 1, <<2, 2, 9, 6, 0, 0, 1, 0, 0, 255, 18, 0, 0>>),
      A("type", TyTYPE, 1, <<22, 1>>),
      A("execution_time", TyExecutionTime, 1, <<1, 0>>)>>,
   meths |-> <<>>]
K_iec_hdlc_setup_ver1_IECHDLCSetup ==
  [key |-> "iec_hdlc_setup.ver1:IECHDLCSetup", id |-> 23, ver |-> 1, attrs |-> <<N,
      B("comm_speed", TyCommSpeed, 1, <<22, 5>>),
      B("windows_size_transmit", Leaf(17), 1, <<17, 1>>),
      B("windows_size_receive", Leaf(17), 1, <<17, 1>>),
      B("max_info_field_length_transmit", Leaf(18), 1, <<18, 7, 238>>),
      B("max_info_field_length_receive", Leaf(18), 1, <<18, 7, 238>>),
      B("inter_octet_time_out", Leaf(18), 1, <<18, 0, 25>>),
      B("inactivity_time_out", Leaf(18), 1, <<18, 0, 120>>),
      B("device_address", Leaf(18), 1, <<18, 0, 16>>)>>,
   meths |-> <<>>]
K_modem_configuration_ver0_PSTNModemConfiguration ==
  [key |-> "modem_configuration.ver0:PSTNModemConfiguration", id |-> 27, ver |-> 0, attrs |-> <<N,
      B("comm_speed", TyCommSpeed, 1, <<22, 5>>),
      A("initialization_string", TyInitializationString, 1, <<1, 0>>),
      A("modem_profile", TyModemProfile, 1, <<1, 0>>)>>,
   meths |-> <<>>]
K_modem_configuration_ver1_ModemConfigurationVer1 ==
  [key |-> "modem_configuration.ver1:ModemConfigurationVer1", id |-> 27, ver |-> 1, attrs |-> <<N,
      B("comm_speed", TyCommSpeed, 1, <<22, 5>>),
      A("initialization_string", TyInitializationString2, 1, <<1, 0>>),
      A("modem_profile", TyModemProfile, 1, <<1, 0>>)>>,
   meths |-> <<>>]
K_tcp_udp_setup_TCPUDPSetup ==
  [key |-> "tcp_udp_setup:TCPUDPSetup", id |-> 41, ver |-> 0, attrs |-> <<N,
      B("TCP_UDP_port", Leaf(18), 1, <<18, 15, 219>>),
      A("IP_reference", TyLogicalName, 1, <<9, 6, 0, 0, 1, 0, 0, 255>>),
      B("MMS", Leaf(18), 1, <<18, 2, 23>>),
      A("nb_of_sim_conn", Leaf(17), 1, <<17, 0>>),
      B("inactivity_time_out", Leaf(18), 1, <<18, 0, 180>>)>>,
   meths |-> <<>>]
K_ipv4_setup_IPv4Setup ==
  [key |-> "ipv4_setup:IPv4Setup", id |-> 42, ver |-> 0, attrs |-> <<N,
      A("DL_reference", Leaf(9), 1, <<9, 0>>),
      C("IP_address", Leaf(6), 1, <<6, 0, 0, 0, 0>>, <<6, 192, 168, 0, 1>>),
      A("multicast_IP_address", TyMulticastIPAddress, 1, <<1, 0>>),
      A("IP_options", TyIPOptions, 1, <<1, 0>>),
      A("subnet_mask", Leaf(6), 1, <<6, 0, 0, 0, 0>>),
      A("gateway_IP_address", Leaf(6), 1, <<6, 0, 0, 0, 0>>),
      A("use_DHCP_flag", Leaf(3), 1, <<3, 0>>),
      A("primary_DNS_address", Leaf(6), 1, <<6, 0, 0, 0, 0>>),
      A("secondary_DNS_address", Leaf(6), 1, <<6, 0, 0, 0, 0>>)>>,
   meths |-> <<>>]
K_gprs_modem_setup_GPRSModemSetup ==
  [key |-> "gprs_modem_setup:GPRSModemSetup", id |-> 45, ver |-> 0, attrs |-> <<N,
      A("APN", Leaf(9), 1, <<9, 0>>),
      A("PIN_code", Leaf(18), 1, <<18, 0, 0>>),
      A("quality_of_service", TyQualityOfService, 1, <<2, 2, 2, 5, 17, 0, 17, 0, 17, 0, 17, 0, 17, 0, 2, 5, 17, 0, 17, 0, 17, 0, 17, 0, 17, 0>>)>>,
   meths |-> <<>>]
K_gsm_diagnostic_ver0_GSMDiagnostic ==
  [key |-> "gsm_diagnostic.ver0:GSMDiagnostic", id |-> 47, ver |-> 0, attrs |-> <<N,
      A("operator", Leaf(10), 2, <<10, 0>>),
      B("status", TyStatus, 2, <<22, 0>>),
      B("cs_attachment", TyCSAttachment, 2, <<22, 0>>),
      B("ps_status", TyPSStatus, 2, <<22, 0>>),
      A("cell_info", TyCellInfoType, 2, <<2, 4, 18, 0, 0, 18, 0, 0, 17, 0, 17, 0>>),
      A("adjacent_cell", TyAdjacentCells, 2, <<1, 0>>),
      A("capture_time", Leaf(25), 2, <<25, 7, 228, 1, 1, 255, 0, 0, 0, 0, 0, 180, 255>>)>>,
   meths |-> <<>>]
K_gsm_diagnostic_ver1_GSMDiagnostic ==
  [key |-> "gsm_diagnostic.ver1:GSMDiagnostic", id |-> 47, ver |-> 1, attrs |-> <<N,
      A("operator", Leaf(10), 2, <<10, 0>>),
      B("status", TyStatus, 2, <<22, 0>>),
      B("cs_attachment", TyCSAttachment, 2, <<22, 0>>),
      B("ps_status", TyPSStatus2, 2, <<22, 0>>),
      A("cell_info", TyCellInfoType2, 2, <<2, 7, 6, 0, 0, 0, 0, 18, 0, 0, 17, 0, 17, 0, 18, 0, 0, 18, 0, 0, 6, 0, 0, 0, 0>>),
      A("adjacent_cell", TyAdjacentCells2, 2, <<1, 0>>),
      A("capture_time", Leaf(25), 2, <<25, 7, 228, 1, 1, 255, 0, 0, 0, 0, 0, 180, 255>>)>>,
   meths |-> <<>>]
K_push_setup_ver2_PushSetup ==
  [key |-> "push_setup.ver2:PushSetup", id |-> 40, ver |-> 2, attrs |-> <<N,
      A("push_object_list", TyPushObjectList, 1, <<1, 0>>),
      A("send_destination_and_method", TySendDestinationAndMethod, 1, <<2, 3, 22, 0, 9, 0, 22, 0>>),
      A("communication_window", TyCommunicationWindow, 1, <<1, 0>>),
      A("randomisation_start_interval", Leaf(18), 1, <<18, 0, 0>>),
      A("number_of_retries", Leaf(17), 1, <<17, 0>>),
      A("repetition_delay", TyRepetitionDelay, 1, <<2, 3, 18, 0, 0, 18, 0, 0, 18, 0, 0>>),
      A("port_reference", TyLogicalName, 1, <<9, 6, 0, 0, 1, 0, 0, 255>>),
      A("push_client_sap", Leaf(15), 1, <<15, 0>>),
      A("push_protection_parameters", TyPushProtectionParameters, 1, <<1, 0>>),
      A("push_operation_method", TyPushOperationMethod, 1, <<22, 0>>),
      A("confirmation_parameters", TyConfirmationParameters, 1, <<2, 2, 25, 7, 228, 1, 1, 255, 0, 0, 0, 0, 0, 180, 255, 6, 0, 0, 0, 0>>),
      A("last_confirmation_date_time", Leaf(25), 2, <<25, 7, 228, 1, 1, 255, 0, 0, 0, 0, 0, 180, 255>>)>>,
   meths |-> <<
      M("push", TyOnly0, <<15, 0>>),
      M("reset", TyOnly0, <<15, 0>>)>>]
K_security_setup_ver0_SecuritySetup ==
  [key |-> "security_setup.ver0:SecuritySetup", id |-> 64, ver |-> 0, attrs |-> <<N,
      B("security_policy", TySecurityPolicy, 1, <<22, 0>>),
      B("security_suite", TySecuritySuite, 1, <<22, 0>>),
      A("client_system_title", Leaf(9), 2, <<9, 0>>),
      A("server_system_title", Leaf(9), 1, <<9, 0>>)>>,
   meths |-> <<
      M("security_activate", TySecurityPolicy, <<22, 0>>),
      M("global_key_transfer", TyGlobalKeyTransfer, <<1, 0>>)>>]
K_security_setup_ver1_SecuritySetup ==
  [key |-> "security_setup.ver1:SecuritySetup", id |-> 64, ver |-> 1, attrs |-> <<N,
      B("security_policy", Leaf(22), 1, <<22, 0>>),
      B("security_suite", TySecuritySuite2, 1, <<22, 0>>),
      A("client_system_title", Leaf(9), 2, <<9, 0>>),
      A("server_system_title", Leaf(9), 1, <<9, 0>>),
      B("certificates", TyCertificates, 2, <<1, 0>>)>>,
   meths |-> <<
      M("security_activate", Leaf(22), <<22, 0>>),
      M("key_transfer", TyKeyTransfer, <<1, 0>>),
      M("key_agreement", TyKeyAgreement, <<1, 0>>),
      M("generate_key_pair", TyKeyPair, <<22, 0>>),
      M("generate_certificate_request", TyKeyPair, <<22, 0>>),
      M("import_certificate", Leaf(9), <<9, 0>>),
      M("export_certificate", TyCertificateIdentification, <<2, 2, 22, 0, 2, 3, 22, 0, 22, 0, 9, 0>>),
      M("remove_certificate", TyCertificateIdentification, <<2, 2, 22, 0, 2, 3, 22, 0, 22, 0, 9, 0>>)>>]
K_arbitrator_Arbitrator ==
  [key |-> "arbitrator:Arbitrator", id |-> 68, ver |-> 0, attrs |-> <<N,
      B("actions", TyActions3, 1, <<1, 0>>),
      B("permission_table", TyPermissionsTable, 1, <<1, 0>>),
      B("weightings_table", TyWeightingsTable, 1, <<1, 0>>),
      B("most_recent_requests_table", TyMostRecentRequestTable, 2, <<1, 0>>),
      B("last_outcome", Leaf(17), 2, <<17, 0>>)>>,
   meths |-> <<
      M("request_action", TyRequestAction, <<2, 2, 17, 0, 4, 0>>),
      M("reset", TyOnly0, <<15, 0>>)>>]
K_disconnect_control_DisconnectControl ==
  [key |-> "disconnect_control:DisconnectControl", id |-> 70, ver |-> 0, attrs |-> <<N,
      A("output_state", TyOutputState, 2, <<3, 0>>),
      A("control_state", TyControlState, 2, <<22, 0>>),
      A("control_mode", TyControlMode, 1, <<22, 0>>)>>,
   meths |-> <<
      M("remote_disconnect", TyOnly0, <<15, 0>>),
      M("remote_reconnect", TyOnly0, <<15, 0>>)>>]
K_limiter_Limiter ==
  [key |-> "limiter:Limiter", id |-> 71, ver |-> 0, attrs |-> <<N,
      A("monitored_value", TyValueDefinition, 1, <<2, 3, 18, 0, 1, 9, 6, 0, 0, 1, 0, 0, 255, 15, 0>>),
      A("threshold_active", TySimpleDataTypeChoice, 2, <<0>>),
      A("threshold_normal", TySimpleDataTypeChoice, 1, <<0>>),
      A("threshold_emergency", TySimpleDataTypeChoice, 1, <<0>>),
      B("min_over_threshold_duration", Leaf(6), 1, <<6, 0, 0, 0, 0>>),
      B("min_under_threshold_duration", Leaf(6), 1, <<6, 0, 0, 0, 0>>),
      A("emergency_profile", TyEmergencyProfileType, 1, <<2, 3, 18, 0, 0, 9, 12, 7, 228, 1, 1, 255, 255, 255, 255, 255, 128, 0, 255, 6, 0, 0, 0, 0>>),
      A("emergency_profile_group_id_list", TyEmergencyProfileGroupIdList, 1, <<1, 0>>),
      A("emergency_profile_active", Leaf(3), 2, <<3, 0>>),
      A("actions", TyActionType, 1, <<2, 2, 2, 2, 9, 6, 0, 0, 1, 0, 0, 255, 18, 0, 0, 2, 2, 9, 6, 0, 0, 1, 0, 0, 255, 18, 0, 0>>)>>,
   meths |-> <<>>]
K_ntp_setup_ver0_NTPSetup ==
  [key |-> "ntp_setup.ver0:NTPSetup", id |-> 100, ver |-> 0, attrs |-> <<N,
      B("activated", Leaf(3), 1, <<3, 0>>),
      A("server_address", Leaf(9), 1, <<9, 0>>),
      B("server_port", Leaf(18), 1, <<18, 0, 123>>),
      A("authentication_method", TyAuthenticationMethod, 1, <<22, 0>>),
      A("authentication_keys", TyAuthenticationKeys, 1, <<1, 0>>),
      A("client_key", Leaf(9), 1, <<9, 0>>)>>,
   meths |-> <<
      M("synchronize", TyOnly0, <<15, 0>>),
      M("add_authentication_key", TyAuthenticationKey, <<2, 2, 6, 0, 0, 0, 0, 9, 0>>),
      M("delete_authentication_key", Leaf(6), <<6, 0, 0, 0, 0>>)>>]
K_implementations_data_Unsigned ==
  [key |-> "implementations.data:Unsigned", id |-> 1, ver |-> 0, attrs |-> <<N,
      A("value", Leaf(17), 2, <<17, 0>>)>>,
   meths |-> <<>>]
K_implementations_arbitrator_SPODES3Arbitrator ==
  [key |-> "implementations.arbitrator:SPODES3Arbitrator", id |-> 68, ver |-> 0, attrs |-> <<N,
      B("actions", TyActions3, 1, <<1, 0>>),
      B("permission_table", TyPermissionsTable, 1, <<1, 0>>),
      B("weightings_table", TyWeightingsTable, 1, <<1, 0>>),
      B("most_recent_requests_table", TyMostRecentRequestTable, 2, <<1, 0>>),
      B("last_outcome", Leaf(17), 2, <<17, 0>>)>>,
   meths |-> <<
      M("request_action", TyRequestAction, <<2, 2, 17, 0, 4, 0>>),
      M("reset", TyOnly0, <<15, 0>>)>>]
K_implementations_data_LDN ==
  [key |-> "implementations.data:LDN", id |-> 1, ver |-> 0, attrs |-> <<N,
      A("value", Leaf(9), 0, <<9, 0>>)>>,
   meths |-> <<>>]
K_implementations_data_ITEBitMap ==
  [key |-> "implementations.data:ITEBitMap", id |-> 1, ver |-> 0, attrs |-> <<N,
      A("value", TyBitMapData, 0, <<2, 3, 9, 12, 7, 228, 1, 1, 255, 255, 255, 255, 255, 128, 0, 255, 9, 12, 7, 228, 1, 1, 255, 255, 255, 255, 255, 128, 0, 255, 9, 0>>)>>,
   meths |-> <<>>]
K_implementations_data_KPZ1SPODES3VoltageEvent ==
  [key |-> "implementations.data:KPZ1SPODES3VoltageEvent", id |-> 1, ver |-> 0, attrs |-> <<N,
      A("value", Leaf(6), 1, <<6, 0, 0, 0, 0>>)>>,
   meths |-> <<>>]
K_implementations_data_KPZ1SPODES3CurrentEvent ==
  [key |-> "implementations.data:KPZ1SPODES3CurrentEvent", id |-> 1, ver |-> 0, attrs |-> <<N,
      A("value", Leaf(6), 1, <<6, 0, 0, 0, 0>>)>>,
   meths |-> <<>>]
K_implementations_data_KPZ1SPODES3CommutationEvent ==
  [key |-> "implementations.data:KPZ1SPODES3CommutationEvent", id |-> 1, ver |-> 0, attrs |-> <<N,
      A("value", Leaf(6), 1, <<6, 0, 0, 0, 0>>)>>,
   meths |-> <<>>]
K_implementations_data_KPZ1SPODES3ProgrammingEvent ==
  [key |-> "implementations.data:KPZ1SPODES3ProgrammingEvent", id |-> 1, ver |-> 0, attrs |-> <<N,
      A("value", Leaf(6), 1, <<6, 0, 0, 0, 0>>)>>,
   meths |-> <<>>]
K_implementations_data_KPZ1SPODES3ExternalEvent ==
  [key |-> "implementations.data:KPZ1SPODES3ExternalEvent", id |-> 1, ver |-> 0, attrs |-> <<N,
      A("value", Leaf(6), 1, <<6, 0, 0, 0, 0>>)>>,
   meths |-> <<>>]
K_implementations_data_KPZ1SPODES3CommunicationEvent ==
  [key |-> "implementations.data:KPZ1SPODES3CommunicationEvent", id |-> 1, ver |-> 0, attrs |-> <<N,
      A("value", Leaf(6), 1, <<6, 0, 0, 0, 0>>)>>,
   meths |-> <<>>]
K_implementations_data_KPZ1SPODES3AccessEvent ==
  [key |-> "implementations.data:KPZ1SPODES3AccessEvent", id |-> 1, ver |-> 0, attrs |-> <<N,
      A("value", Leaf(6), 1, <<6, 0, 0, 0, 0>>)>>,
   meths |-> <<>>]
K_implementations_data_KPZ1SPODES3SelfDiagnosticEvent ==
  [key |-> "implementations.data:KPZ1SPODES3SelfDiagnosticEvent", id |-> 1, ver |-> 0, attrs |-> <<N,
      A("value", Leaf(6), 1, <<6, 0, 0, 0, 0>>)>>,
   meths |-> <<>>]
K_implementations_data_KPZ1SPODES3ReactivePowerEvent ==
  [key |-> "implementations.data:KPZ1SPODES3ReactivePowerEvent", id |-> 1, ver |-> 0, attrs |-> <<N,
      A("value", Leaf(6), 1, <<6, 0, 0, 0, 0>>)>>,
   meths |-> <<>>]
K_implementations_data_SPODES3MeasurementPeriod ==
  [key |-> "implementations.data:SPODES3MeasurementPeriod", id |-> 1, ver |-> 0, attrs |-> <<N,
      A("value", TySPODES3MeasurementPeriodValue, 1, <<>>)>>,
   meths |-> <<>>]
K_implementations_data_DLMSDeviceIDObject ==
  [key |-> "implementations.data:DLMSDeviceIDObject", id |-> 1, ver |-> 0, attrs |-> <<N,
      A("value", TyDeviceIDobject, 1, <<6, 0, 0, 0, 0>>)>>,
   meths |-> <<>>]
K_implementations_data_SPODES3SPODESVersion ==
  [key |-> "implementations.data:SPODES3SPODESVersion", id |-> 1, ver |-> 0, attrs |-> <<N,
      A("value", TySPODES3SPODESVersionValue, 1, <<>>)>>,
   meths |-> <<>>]
K_implementations_data_SPODES3IDNotSpecific ==
  [key |-> "implementations.data:SPODES3IDNotSpecific", id |-> 1, ver |-> 0, attrs |-> <<N,
      A("value", TyDeviceIDobject, 0, <<6, 0, 0, 0, 0>>)>>,
   meths |-> <<>>]
K_implementations_data_KPZGSMPingIP ==
  [key |-> "implementations.data:KPZGSMPingIP", id |-> 1, ver |-> 0, attrs |-> <<N,
      A("value", TyKPZGSMPingIPValue, 1, <<2, 2, 17, 0, 1, 0>>)>>,
   meths |-> <<>>]
K_implementations_data_OctetStringDateTime ==
  [key |-> "implementations.data:OctetStringDateTime", id |-> 1, ver |-> 0, attrs |-> <<N,
      A("value", DateTimeOctets, 2, <<9, 12, 7, 228, 1, 1, 255, 0, 0, 0, 0, 0, 180, 255>>)>>,
   meths |-> <<>>]
K_implementations_data_OpeningBody ==
  [key |-> "implementations.data:OpeningBody", id |-> 1, ver |-> 0, attrs |-> <<N,
      A("value", Leaf(17), 2, <<17, 0>>)>>,
   meths |-> <<>>]
K_implementations_data_SealStatus ==
  [key |-> "implementations.data:SealStatus", id |-> 1, ver |-> 0, attrs |-> <<N,
      A("value", Leaf(17), 2, <<17, 0>>)>>,
   meths |-> <<>>]
K_implementations_data_TerminalsCoverOpeningState ==
  [key |-> "implementations.data:TerminalsCoverOpeningState", id |-> 1, ver |-> 0, attrs |-> <<N,
      A("value", Leaf(17), 2, <<17, 0>>)>>,
   meths |-> <<>>]
K_implementations_data_AnyDateTime ==
  [key |-> "implementations.data:AnyDateTime", id |-> 1, ver |-> 0, attrs |-> <<N,
      A("value", TyAnyDateTimeChoice, 2, <<25, 7, 228, 1, 1, 255, 0, 0, 0, 0, 0, 180, 255>>)>>,
   meths |-> <<>>]
K_implementations_data_SPODES3VoltageEvent ==
  [key |-> "implementations.data:SPODES3VoltageEvent", id |-> 1, ver |-> 0, attrs |-> <<N,
      A("value", Leaf(18), 2, <<18, 0, 0>>)>>,
   meths |-> <<>>]
K_implementations_data_SPODES3CurrentEvent ==
  [key |-> "implementations.data:SPODES3CurrentEvent", id |-> 1, ver |-> 0, attrs |-> <<N,
      A("value", Leaf(18), 2, <<18, 0, 0>>)>>,
   meths |-> <<>>]
K_implementations_data_SPODES3CommutationEvent ==
  [key |-> "implementations.data:SPODES3CommutationEvent", id |-> 1, ver |-> 0, attrs |-> <<N,
      A("value", Leaf(18), 2, <<18, 0, 0>>)>>,
   meths |-> <<>>]
K_implementations_data_SPODES3ProgrammingEvent ==
  [key |-> "implementations.data:SPODES3ProgrammingEvent", id |-> 1, ver |-> 0, attrs |-> <<N,
      A("value", Leaf(18), 2, <<18, 0, 0>>)>>,
   meths |-> <<>>]
K_implementations_data_SPODES3ExternalEvent ==
  [key |-> "implementations.data:SPODES3ExternalEvent", id |-> 1, ver |-> 0, attrs |-> <<N,
      A("value", Leaf(18), 2, <<18, 0, 0>>)>>,
   meths |-> <<>>]
K_implementations_data_SPODES3CommunicationEvent ==
  [key |-> "implementations.data:SPODES3CommunicationEvent", id |-> 1, ver |-> 0, attrs |-> <<N,
      A("value", Leaf(18), 2, <<18, 0, 0>>)>>,
   meths |-> <<>>]
K_implementations_data_SPODES3AccessEvent ==
  [key |-> "implementations.data:SPODES3AccessEvent", id |-> 1, ver |-> 0, attrs |-> <<N,
      A("value", Leaf(18), 2, <<18, 0, 0>>)>>,
   meths |-> <<>>]
K_implementations_data_SPODES3SelfDiagnosticEvent ==
  [key |-> "implementations.data:SPODES3SelfDiagnosticEvent", id |-> 1, ver |-> 0, attrs |-> <<N,
      A("value", Leaf(18), 2, <<18, 0, 0>>)>>,
   meths |-> <<>>]
K_implementations_data_SPODES3ReactivePowerEvent ==
  [key |-> "implementations.data:SPODES3ReactivePowerEvent", id |-> 1, ver |-> 0, attrs |-> <<N,
      A("value", Leaf(18), 2, <<18, 0, 0>>)>>,
   meths |-> <<>>]
K_implementations_data_DataNotSpecific ==
  [key |-> "implementations.data:DataNotSpecific", id |-> 1, ver |-> 0, attrs |-> <<N,
      A("value", TyCommonDataTypeChoice, 0, <<0>>)>>,
   meths |-> <<>>]
K_implementations_data_SPODES3PowerQuality2Event ==
  [key |-> "implementations.data:SPODES3PowerQuality2Event", id |-> 1, ver |-> 0, attrs |-> <<N,
      A("value", Leaf(18), 0, <<18, 0, 0>>)>>,
   meths |-> <<>>]
K_implementations_data_SPODES3PowerQuality1Event ==
  [key |-> "implementations.data:SPODES3PowerQuality1Event", id |-> 1, ver |-> 0, attrs |-> <<N,
      A("value", Leaf(18), 0, <<18, 0, 0>>)>>,
   meths |-> <<>>]
K_implementations_data_ActiveFirmwareId ==
  [key |-> "implementations.data:ActiveFirmwareId", id |-> 1, ver |-> 0, attrs |-> <<N,
      A("value", TyCommonDataTypeChoice, 0, <<0>>)>>,
   meths |-> <<>>]
K_implementations_data_CommunicationPortParameter ==
  [key |-> "implementations.data:CommunicationPortParameter", id |-> 1, ver |-> 0, attrs |-> <<N,
      B("value", Leaf(17), 2, <<17, 9>>)>>,
   meths |-> <<>>]
K_implementations_profile_generic_SPODES3ScalesProfile ==
  [key |-> "implementations.profile_generic:SPODES3ScalesProfile", id |-> 7, ver |-> 1, attrs |-> <<N,
      B("buffer", AnyArray, 1, <<1, 0>>),
      A("capture_objects", TyCaptureObjects, 1, <<1, 0>>),
      A("capture_period", Leaf(6), 1, <<6, 0, 0, 0, 0>>),
      A("sort_method", TySortMethod, 1, <<22, 1>>),
      A("sort_object", TyCaptureObjectDefinition, 1, <<2, 4, 18, 0, 8, 9, 6, 0, 0, 1, 0, 0, 255, 15, 2, 18, 0, 0>>),
      B("entries_in_use", Leaf(6), 2, <<6, 0, 0, 0, 0>>),
      B("profile_entries", Leaf(6), 1, <<6, 0, 0, 0, 1>>)>>,
   meths |-> <<
      M("reset", TyOnly0, <<15, 0>>),
      M("capture", TyOnly0, <<15, 0>>)>>]
K_implementations_profile_generic_SPODES3CurrentProfile ==
  [key |-> "implementations.profile_generic:SPODES3CurrentProfile", id |-> 7, ver |-> 1, attrs |-> <<N,
      B("buffer", AnyArray, 2, <<1, 0>>),
      A("capture_objects", TyCaptureObjects, 1, <<1, 0>>),
      A("capture_period", Leaf(6), 1, <<6, 0, 0, 0, 0>>),
      A("sort_method", TySortMethod, 1, <<22, 1>>),
      A("sort_object", TyCaptureObjectDefinition, 1, <<2, 4, 18, 0, 8, 9, 6, 0, 0, 1, 0, 0, 255, 15, 2, 18, 0, 0>>),
      B("entries_in_use", Leaf(6), 2, <<6, 0, 0, 0, 0>>),
      B("profile_entries", Leaf(6), 1, <<6, 0, 0, 0, 1>>)>>,
   meths |-> <<
      M("reset", TyOnly0, <<15, 0>>),
      M("capture", TyOnly0, <<15, 0>>)>>]
K_implementations_profile_generic_SPODES3MonthProfile ==
  [key |-> "implementations.profile_generic:SPODES3MonthProfile", id |-> 7, ver |-> 1, attrs |-> <<N,
      B("buffer", AnyArray, 2, <<1, 0>>),
      A("capture_objects", TyCaptureObjects, 1, <<1, 0>>),
      A("capture_period", Leaf(6), 1, <<6, 0, 0, 0, 0>>),
      A("sort_method", TySortMethod, 1, <<22, 1>>),
      A("sort_object", TyCaptureObjectDefinition, 1, <<2, 4, 18, 0, 8, 9, 6, 0, 0, 1, 0, 0, 255, 15, 2, 18, 0, 0>>),
      B("entries_in_use", Leaf(6), 2, <<6, 0, 0, 0, 0>>),
      B("profile_entries", Leaf(6), 1, <<6, 0, 0, 0, 1>>)>>,
   meths |-> <<
      M("reset", TyOnly0, <<15, 0>>),
      M("capture", TyOnly0, <<15, 0>>)>>]
K_implementations_profile_generic_SPODES3DailyProfile ==
  [key |-> "implementations.profile_generic:SPODES3DailyProfile", id |-> 7, ver |-> 1, attrs |-> <<N,
      B("buffer", AnyArray, 2, <<1, 0>>),
      A("capture_objects", TyCaptureObjects, 1, <<1, 0>>),
      A("capture_period", Leaf(6), 1, <<6, 0, 0, 0, 0>>),
      A("sort_method", TySortMethod, 1, <<22, 1>>),
      A("sort_object", TyCaptureObjectDefinition, 1, <<2, 4, 18, 0, 8, 9, 6, 0, 0, 1, 0, 0, 255, 15, 2, 18, 0, 0>>),
      B("entries_in_use", Leaf(6), 2, <<6, 0, 0, 0, 0>>),
      B("profile_entries", Leaf(6), 1, <<6, 0, 0, 0, 1>>)>>,
   meths |-> <<
      M("reset", TyOnly0, <<15, 0>>),
      M("capture", TyOnly0, <<15, 0>>)>>]
K_implementations_profile_generic_SPODES3LoadProfile ==
  [key |-> "implementations.profile_generic:SPODES3LoadProfile", id |-> 7, ver |-> 1, attrs |-> <<N,
      B("buffer", AnyArray, 2, <<1, 0>>),
      A("capture_objects", TyCaptureObjects, 1, <<1, 0>>),
      A("capture_period", Leaf(6), 1, <<6, 0, 0, 0, 0>>),
      A("sort_method", TySortMethod, 1, <<22, 1>>),
      A("sort_object", TyCaptureObjectDefinition, 1, <<2, 4, 18, 0, 8, 9, 6, 0, 0, 1, 0, 0, 255, 15, 2, 18, 0, 0>>),
      B("entries_in_use", Leaf(6), 2, <<6, 0, 0, 0, 0>>),
      B("profile_entries", Leaf(6), 1, <<6, 0, 0, 0, 1>>)>>,
   meths |-> <<
      M("reset", TyOnly0, <<15, 0>>),
      M("capture", TyOnly0, <<15, 0>>)>>]
K_implementations_profile_generic_SPODES3DisplayReadout ==
  [key |-> "implementations.profile_generic:SPODES3DisplayReadout", id |-> 7, ver |-> 1, attrs |-> <<N,
      B("buffer", AnyArray, 2, <<1, 0>>),
      A("capture_objects", TyCaptureObjectsDisplayReadout, 1, <<1, 0>>),
      A("capture_period", Leaf(6), 1, <<6, 0, 0, 0, 0>>),
      A("sort_method", TySortMethod, 1, <<22, 1>>),
      A("sort_object", TyCaptureObjectDefinition, 1, <<2, 4, 18, 0, 8, 9, 6, 0, 0, 1, 0, 0, 255, 15, 2, 18, 0, 0>>),
      B("entries_in_use", Leaf(6), 2, <<6, 0, 0, 0, 0>>),
      B("profile_entries", Leaf(6), 1, <<6, 0, 0, 0, 1>>)>>,
   meths |-> <<
      M("reset", TyOnly0, <<15, 0>>),
      M("capture", TyOnly0, <<15, 0>>)>>]

\* the classes by number
ClassCount == 77
Cls(c) ==
  CASE c = 1 -> K_data_Data
    [] c = 2 -> K_implementations_data_DataStatic
    [] c = 3 -> K_implementations_data_DataDynamic
    [] c = 4 -> K_register_Register
    [] c = 5 -> K_extended_register_ExtendedRegister
    [] c = 6 -> K_demand_register_ver0_DemandRegister
    [] c = 7 -> K_register_activation_ver0_RegisterActivation
    [] c = 8 -> K_profile_generic_ver1_ProfileGeneric
    [] c = 9 -> K_clock_Clock
    [] c = 10 -> K_script_table_ScriptTable
    [] c = 11 -> K_schedule_Schedule
    [] c = 12 -> K_special_days_table_SpecialDaysTable
    [] c = 13 -> K_association_ln_ver0_AssociationLN
    [] c = 14 -> K_association_ln_ver1_AssociationLN
    [] c = 15 -> K_association_ln_ver2_AssociationLN
    [] c = 16 -> K_image_transfer_ver0_ImageTransfer
    [] c = 17 -> K_activity_calendar_ActivityCalendar
    [] c = 18 -> K_register_monitor_RegisterMonitor
    [] c = 19 -> K_single_action_schedule_SingleActionSchedule
    [] c = 20 -> K_iec_hdlc_setup_ver1_IECHDLCSetup
    [] c = 21 -> K_modem_configuration_ver0_PSTNModemConfiguration
    [] c = 22 -> K_modem_configuration_ver1_ModemConfigurationVer1
    [] c = 23 -> K_tcp_udp_setup_TCPUDPSetup
    [] c = 24 -> K_ipv4_setup_IPv4Setup
    [] c = 25 -> K_gprs_modem_setup_GPRSModemSetup
    [] c = 26 -> K_gsm_diagnostic_ver0_GSMDiagnostic
    [] c = 27 -> K_gsm_diagnostic_ver1_GSMDiagnostic
    [] c = 28 -> K_push_setup_ver2_PushSetup
    [] c = 29 -> K_security_setup_ver0_SecuritySetup
    [] c = 30 -> K_security_setup_ver1_SecuritySetup
    [] c = 31 -> K_arbitrator_Arbitrator
    [] c = 32 -> K_disconnect_control_DisconnectControl
    [] c = 33 -> K_limiter_Limiter
    [] c = 34 -> K_ntp_setup_ver0_NTPSetup
    [] c = 35 -> K_implementations_data_Unsigned
    [] c = 36 -> K_implementations_arbitrator_SPODES3Arbitrator
    [] c = 37 -> K_implementations_data_LDN
    [] c = 38 -> K_implementations_data_ITEBitMap
    [] c = 39 -> K_implementations_data_KPZ1SPODES3VoltageEvent
    [] c = 40 -> K_implementations_data_KPZ1SPODES3CurrentEvent
    [] c = 41 -> K_implementations_data_KPZ1SPODES3CommutationEvent
    [] c = 42 -> K_implementations_data_KPZ1SPODES3ProgrammingEvent
    [] c = 43 -> K_implementations_data_KPZ1SPODES3ExternalEvent
    [] c = 44 -> K_implementations_data_KPZ1SPODES3CommunicationEvent
    [] c = 45 -> K_implementations_data_KPZ1SPODES3AccessEvent
    [] c = 46 -> K_implementations_data_KPZ1SPODES3SelfDiagnosticEvent
    [] c = 47 -> K_implementations_data_KPZ1SPODES3ReactivePowerEvent
    [] c = 48 -> K_implementations_data_SPODES3MeasurementPeriod
    [] c = 49 -> K_implementations_data_DLMSDeviceIDObject
    [] c = 50 -> K_implementations_data_SPODES3SPODESVersion
    [] c = 51 -> K_implementations_data_SPODES3IDNotSpecific
    [] c = 52 -> K_implementations_data_KPZGSMPingIP
    [] c = 53 -> K_implementations_data_OctetStringDateTime
    [] c = 54 -> K_implementations_data_OpeningBody
    [] c = 55 -> K_implementations_data_SealStatus
    [] c = 56 -> K_implementations_data_TerminalsCoverOpeningState
    [] c = 57 -> K_implementations_data_AnyDateTime
    [] c = 58 -> K_implementations_data_SPODES3VoltageEvent
    [] c = 59 -> K_implementations_data_SPODES3CurrentEvent
    [] c = 60 -> K_implementations_data_SPODES3CommutationEvent
    [] c = 61 -> K_implementations_data_SPODES3ProgrammingEvent
    [] c = 62 -> K_implementations_data_SPODES3ExternalEvent
    [] c = 63 -> K_implementations_data_SPODES3CommunicationEvent
    [] c = 64 -> K_implementations_data_SPODES3AccessEvent
    [] c = 65 -> K_implementations_data_SPODES3SelfDiagnosticEvent
    [] c = 66 -> K_implementations_data_SPODES3ReactivePowerEvent
    [] c = 67 -> K_implementations_data_DataNotSpecific
    [] c = 68 -> K_implementations_data_SPODES3PowerQuality2Event
    [] c = 69 -> K_implementations_data_SPODES3PowerQuality1Event
    [] c = 70 -> K_implementations_data_ActiveFirmwareId
    [] c = 71 -> K_implementations_data_CommunicationPortParameter
    [] c = 72 -> K_implementations_profile_generic_SPODES3ScalesProfile
    [] c = 73 -> K_implementations_profile_generic_SPODES3CurrentProfile
    [] c = 74 -> K_implementations_profile_generic_SPODES3MonthProfile
    [] c = 75 -> K_implementations_profile_generic_SPODES3DailyProfile
    [] c = 76 -> K_implementations_profile_generic_SPODES3LoadProfile
    [] c = 77 -> K_implementations_profile_generic_SPODES3DisplayReadout
ClassNo(key) ==
  CASE key = "data:Data" -> 1
    [] key = "implementations.data:DataStatic" -> 2
    [] key = "implementations.data:DataDynamic" -> 3
    [] key = "register:Register" -> 4
    [] key = "extended_register:ExtendedRegister" -> 5
    [] key = "demand_register.ver0:DemandRegister" -> 6
    [] key = "register_activation.ver0:RegisterActivation" -> 7
    [] key = "profile_generic.ver1:ProfileGeneric" -> 8
    [] key = "clock:Clock" -> 9
    [] key = "script_table:ScriptTable" -> 10
    [] key = "schedule:Schedule" -> 11
    [] key = "special_days_table:SpecialDaysTable" -> 12
    [] key = "association_ln.ver0:AssociationLN" -> 13
    [] key = "association_ln.ver1:AssociationLN" -> 14
    [] key = "association_ln.ver2:AssociationLN" -> 15
    [] key = "image_transfer.ver0:ImageTransfer" -> 16
    [] key = "activity_calendar:ActivityCalendar" -> 17
    [] key = "register_monitor:RegisterMonitor" -> 18
    [] key = "single_action_schedule:SingleActionSchedule" -> 19
    [] key = "iec_hdlc_setup.ver1:IECHDLCSetup" -> 20
    [] key = "modem_configuration.ver0:PSTNModemConfiguration" -> 21
    [] key = "modem_configuration.ver1:ModemConfigurationVer1" -> 22
    [] key = "tcp_udp_setup:TCPUDPSetup" -> 23
    [] key = "ipv4_setup:IPv4Setup" -> 24
    [] key = "gprs_modem_setup:GPRSModemSetup" -> 25
    [] key = "gsm_diagnostic.ver0:GSMDiagnostic" -> 26
    [] key = "gsm_diagnostic.ver1:GSMDiagnostic" -> 27
    [] key = "push_setup.ver2:PushSetup" -> 28
    [] key = "security_setup.ver0:SecuritySetup" -> 29
    [] key = "security_setup.ver1:SecuritySetup" -> 30
    [] key = "arbitrator:Arbitrator" -> 31
    [] key = "disconnect_control:DisconnectControl" -> 32
    [] key = "limiter:Limiter" -> 33
    [] key = "ntp_setup.ver0:NTPSetup" -> 34
    [] key = "implementations.data:Unsigned" -> 35
    [] key = "implementations.arbitrator:SPODES3Arbitrator" -> 36
    [] key = "implementations.data:LDN" -> 37
    [] key = "implementations.data:ITEBitMap" -> 38
    [] key = "implementations.data:KPZ1SPODES3VoltageEvent" -> 39
    [] key = "implementations.data:KPZ1SPODES3CurrentEvent" -> 40
    [] key = "implementations.data:KPZ1SPODES3CommutationEvent" -> 41
    [] key = "implementations.data:KPZ1SPODES3ProgrammingEvent" -> 42
    [] key = "implementations.data:KPZ1SPODES3ExternalEvent" -> 43
    [] key = "implementations.data:KPZ1SPODES3CommunicationEvent" -> 44
    [] key = "implementations.data:KPZ1SPODES3AccessEvent" -> 45
    [] key = "implementations.data:KPZ1SPODES3SelfDiagnosticEvent" -> 46
    [] key = "implementations.data:KPZ1SPODES3ReactivePowerEvent" -> 47
    [] key = "implementations.data:SPODES3MeasurementPeriod" -> 48
    [] key = "implementations.data:DLMSDeviceIDObject" -> 49
    [] key = "implementations.data:SPODES3SPODESVersion" -> 50
    [] key = "implementations.data:SPODES3IDNotSpecific" -> 51
    [] key = "implementations.data:KPZGSMPingIP" -> 52
    [] key = "implementations.data:OctetStringDateTime" -> 53
    [] key = "implementations.data:OpeningBody" -> 54
    [] key = "implementations.data:SealStatus" -> 55
    [] key = "implementations.data:TerminalsCoverOpeningState" -> 56
    [] key = "implementations.data:AnyDateTime" -> 57
    [] key = "implementations.data:SPODES3VoltageEvent" -> 58
    [] key = "implementations.data:SPODES3CurrentEvent" -> 59
    [] key = "implementations.data:SPODES3CommutationEvent" -> 60
    [] key = "implementations.data:SPODES3ProgrammingEvent" -> 61
    [] key = "implementations.data:SPODES3ExternalEvent" -> 62
    [] key = "implementations.data:SPODES3CommunicationEvent" -> 63
    [] key = "implementations.data:SPODES3AccessEvent" -> 64
    [] key = "implementations.data:SPODES3SelfDiagnosticEvent" -> 65
    [] key = "implementations.data:SPODES3ReactivePowerEvent" -> 66
    [] key = "implementations.data:DataNotSpecific" -> 67
    [] key = "implementations.data:SPODES3PowerQuality2Event" -> 68
    [] key = "implementations.data:SPODES3PowerQuality1Event" -> 69
    [] key = "implementations.data:ActiveFirmwareId" -> 70
    [] key = "implementations.data:CommunicationPortParameter" -> 71
    [] key = "implementations.profile_generic:SPODES3ScalesProfile" -> 72
    [] key = "implementations.profile_generic:SPODES3CurrentProfile" -> 73
    [] key = "implementations.profile_generic:SPODES3MonthProfile" -> 74
    [] key = "implementations.profile_generic:SPODES3DailyProfile" -> 75
    [] key = "implementations.profile_generic:SPODES3LoadProfile" -> 76
    [] key = "implementations.profile_generic:SPODES3DisplayReadout" -> 77

\* attributes with hooks of their own, which other specifications deal with
Skipped(key) ==
  CASE key \in {"demand_register.ver0:DemandRegister"} -> {2, 3}
    [] key = "limiter:Limiter" -> {2, 3, 4, 5}
    [] key = "register_monitor:RegisterMonitor" -> {2, 3}
    [] key \in {"arbitrator:Arbitrator", "implementations.arbitrator:SPODES3Arbitrator"} -> {2, 3}
    [] key \in {"profile_generic.ver1:ProfileGeneric", "implementations.profile_generic:SPODES3ScalesProfile", "implementations.profile_generic:SPODES3CurrentProfile",
                "implementations.profile_generic:SPODES3MonthProfile", "implementations.profile_generic:SPODES3DailyProfile",
                "implementations.profile_generic:SPODES3LoadProfile", "implementations.profile_generic:SPODES3DisplayReadout"} -> {2, 3, 6}
    [] key \in {"association_ln.ver0:AssociationLN", "association_ln.ver1:AssociationLN", "association_ln.ver2:AssociationLN"} -> {2, 5, 6, 7}
    [] key \in {"implementations.data:LDN", "implementations.data:ActiveFirmwareId"} -> {2}
    [] OTHER -> {}
=============================================================================
