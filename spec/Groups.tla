-------------------------------- MODULE Groups ------------------------------
(* Media and groups of objects by OBIS name (tables of the Blue Book as the  *)
(* library has them): the name of the group a logical name belongs to.       *)
EXTENDS Integers

\* medium, by value group A
Medium(a) == CASE a = 0 -> "Abstract" [] a = 1 -> "Electricity" [] a = 4 -> "Hca" [] a \in {5, 6} -> "Thermal" [] a = 7 -> "Gas"
               [] a \in {8, 9} -> "Water" [] a = 15 -> "Other" [] OTHER -> "Reserved"

Id10 == (0..9) \cup {255}
Up63 == 0..63
\* harmonics
Harm == (0..120) \cup (124..127)
\* billing periods
Hist == (0..99) \cup {255}
Hist125 == Hist \cup (101..125)
\* quantities: other than active power, active power, both
C1 == (1..9) \cup {13, 14, 33, 34, 53, 54, 73, 74, 82} \cup (16..30) \cup (36..50) \cup (56..69) \cup (76..80) \cup (84..89)
T44 == {11, 12, 15, 31, 32, 35, 51, 52, 55, 71, 72, 75, 90, 91, 92}
C2 == T44 \cup (100..107)

AbstractGroup(b, c, d, e, f) ==
  CASE c = 0 -> (
       CASE d = 1 -> "BillingPeriodValuesResetCounterEntries"
         [] d \in {2, 9} -> "OtherAbstractGeneralPurposeObisCodes"
         [] OTHER -> "Other")
    [] c = 1 -> (
       CASE d \in 0..6 -> "ClockObjects"
         [] OTHER -> "Other")
    [] c = 2 -> (
       CASE d \in 0..2 -> "ModemConfigurationAndRelatedObjects"
         [] OTHER -> "Other")
    [] c = 10 /\ d = 0 /\ e \in (100..111) \cup {0, 1, 125} -> "ScriptTableObjects"
    [] c = 11 /\ d = 0 -> "SpecialDaysTableObjects"
    [] c = 12 /\ d = 0 -> "ScheduleObjects"
    [] c = 13 /\ d = 0 -> "ActivityCalendarObjects"
    [] c = 14 /\ d = 0 -> "RegisterActivationObjects"
    [] c = 15 /\ d = 0 /\ e \in 0..7 -> "SingleActionScheduleObjects"
    [] c = 16 -> (
       CASE d = 0 \/ (d = 1 /\ e \in 0..9) -> "RegisterObjectsMonitor"
         [] d = 2 -> "ParameterMonitorObjects"
         [] OTHER -> "Other")
    [] c = 17 /\ d = 0 -> "LimiterObjects"
    [] c = 18 /\ d = 0 -> "ArrayManagerObjects"
    [] c = 19 -> (
       CASE (d \in 0..9 /\ e = 0) \/ d \in 10..49 \/ (d \in 50..59 /\ e \in {1, 2}) -> "PaymentMeteringRelatedObjects"
         [] OTHER -> "Other")
    [] c = 20 /\ d = 0 /\ e \in {0, 1} -> "IecLocalPortSetupObjects"
    [] c = 21 /\ d = 0 -> "StandardReadoutProfileObjects"
    [] c = 22 /\ d = 0 /\ e = 0 -> "IecHdlcSetupObjects"
    [] c = 23 -> (
       CASE (d \in 0..2 /\ e = 0) \/ d = 3 -> "IecTwistedPair1SetupObjects"
         [] OTHER -> "Other")
    [] c = 24 -> (
       CASE (d \in (4..6) \cup {0, 1} /\ e = 0) \/ d \in {2, 8, 9} -> "ObjectsRelatedToDataExchangeOverMBus"
         [] OTHER -> "Other")
    [] c = 31 /\ d = 0 /\ e = 0 -> "ObjectsRelatedToDataExchangeOverMBus"
    [] c = 25 -> (
       CASE d \in (0..7) \cup (10..15) /\ e = 0 -> "ObjectsToSetUpDataExchangeOverTheInternet"
         [] d = 9 /\ e = 0 -> "ObjectsToSetUpPushSetup"
         [] OTHER -> "Other")
    [] c = 26 /\ d \in (0..3) \cup {5, 6} /\ e = 0 -> "ObjectsForSettingUpDataExchangeUsingSFskPlc"
    [] c = 27 /\ d \in 0..2 /\ e = 0 -> "ObjectsForSettingUpTheIsoIec88022LlcLayer"
    [] c = 28 /\ d \in 0..7 /\ e = 0 -> "ObjectsForDataExchangeUsingNarrowbandOfdmPlcForPrimeNetworks"
    [] c = 29 /\ d \in 0..2 /\ e = 0 -> "ObjectsForDataExchangeUsingNarrowBandOfdmPlcForG3PlcNetworks"
    [] c = 30 /\ d \in 0..4 -> "ZigbeeSetupObjects"
    [] c = 32 /\ d \in 0..3 /\ e = 0 -> "ObjectsForSettingUpAndManagingDataExchangeUsingIsoIec14908PlcNetworks"
    [] c = 33 /\ d \in 0..3 /\ e = 0 -> "ObjectsForDataExchangeUsingHsPlcIsoIec121391IsoEc121391Networks"
    [] c = 34 /\ d \in 0..3 /\ e = 0 -> "ObjectsForDataExchangeUsingWiSunNetworks"
    [] c = 40 /\ b = 0 /\ d = 0 -> "AssociationObjects"
    [] c = 41 /\ b = 0 /\ d = 0 /\ e = 0 -> "SapAssignmentObject"
    [] c = 42 /\ b = 0 /\ d = 0 /\ e = 0 -> "CosemLogicalDeviceNameObject"
    [] c = 43 -> (
       CASE (b = 0 /\ d = 0) \/ d \in {1, 2} -> "InformationSecurityRelatedObjects"
         [] OTHER -> "Other")
    [] c = 44 -> (
       CASE b = 0 -> (
            CASE d = 0 -> "ImageTransferObjects"
              [] d = 1 -> "FunctionControlObjects"
              [] d = 2 -> "CommunicationPortProtectionObjects"
              [] OTHER -> "Other")
         [] OTHER -> "Other")
    [] c = 65 /\ d \in Up63 -> "UtilityTableObjects"
    [] c = 66 /\ d = 0 -> "CompactDataObjects"
    [] c = 96 -> (
       CASE d = 1 -> (
            CASE e \in Id10 -> "DeviceIdObjects"
              [] e = 10 -> "MeteringPointIdObjects"
              [] OTHER -> "Other")
         [] d = 2 -> "ParameterChangesAndCalibrationObjects"
         [] d = 3 -> (
            CASE e \in 0..4 -> "IOControlSignalObjects"
              [] e = 10 -> "DisconnectControlObjects"
              [] e \in 20..29 -> "ArbitratorObjects"
              [] OTHER -> "Other")
         [] d = 4 /\ e \in 0..4 -> "StatusOfInternalControlSignalsObjects"
         [] d = 5 /\ e \in 0..4 -> "InternalOperatingStatusObjects"
         [] d = 6 /\ e \in 0..6 -> "BatteryEntriesObjects"
         [] d = 7 /\ e \in 0..21 -> "PowerFailureMonitoringObjects"
         [] d = 8 /\ e \in Up63 -> "OperatingTimeObjects"
         [] d = 9 /\ e \in 0..2 -> "EnvironmentRelatedParametersObjects"
         [] d = 10 /\ e \in 1..10 -> "StatusRegisterObjects"
         [] d = 11 /\ e \in 0..99 -> "EventCodeObjects"
         [] d = 12 /\ e \in 0..6 -> "CommunicationPortLogParameterObjects"
         [] d = 13 /\ e \in {0, 1} -> "ConsumerMessageObjects"
         [] d = 14 /\ e \in 0..15 -> "CurrentlyActiveTariffObjects"
         [] d = 15 /\ e \in 0..99 -> "EventCounterObjects"
         [] d = 16 /\ e \in 0..9 -> "ProfileEntryDigitalSignatureObjects"
         [] d = 17 /\ e \in 0..127 -> "ProfileEntryCounterObjects"
         [] d = 20 -> "MeterTamperEventRelatedObjects"
         [] d \in 50..99 -> "AbstractManufacturerSpecific"
         [] OTHER -> "Other")
    [] c = 97 -> (
       CASE d = 97 /\ e \in Id10 -> "ErrorRegisterObjects"
         [] d = 98 /\ e \in (0..29) \cup {255} -> "AlarmRegisterFilterDescriptorObjects"
         [] OTHER -> "Other")
    [] c = 98 -> "GeneralListObjects"
    [] c = 99 -> (
       CASE d \in (12..18) \cup {1, 2} \/ (d = 3 /\ e = 0) -> "AbstractDataProfileObjects"
         [] d = 98 -> "EventLogObjects"
         [] OTHER -> "Other")
    [] c = 127 /\ d = 0 -> "InactiveObjects"
    [] OTHER -> "Abstract"
ElectricityGroup(b, c, d, e, f) ==
  CASE c = 0 -> (
       CASE d = 0 /\ e \in Id10 -> "IdNumbersElectricity"
         [] d = 1 -> "BillingPeriodValuesResetCounterEntriesEl"
         [] d \in (2..4) \cup (6..10) -> "OtherElectricityRelatedGeneralPurposeObjects"
         [] d = 11 /\ e \in 1..7 -> "MeasurementAlgorithm"
         [] OTHER -> "Other")
    [] c \in {1, 21, 41, 61} -> "ActivePowerPlus"
    [] c \in {2, 22, 42, 62} -> "ActivePowerMinus"
    [] c \in {3, 23, 43, 63} -> "ReactivePowerPlus"
    [] c \in {4, 24, 44, 64} -> "ReactivePowerMinus"
    [] c \in {5, 25, 45, 65} -> "ReactivePowerQi"
    [] c \in {6, 26, 46, 66} -> "ReactivePowerQii"
    [] c \in {7, 27, 47, 67} -> "ReactivePowerQiii"
    [] c \in {8, 28, 48, 68} -> "ReactivePowerQiv"
    [] c \in {9, 29, 49, 69} -> "ApparentPowerPlus"
    [] c \in {10, 30, 50, 70} -> "ApparentPowerMinus"
    [] c \in {11, 31, 51, 71} -> "Current"
    [] c \in {12, 32, 52, 72} -> "Voltage"
    [] c \in {13, 33, 53, 73} -> "PowerFactor"
    [] c \in {14, 34, 54, 74} -> "SupplyFrequency"
    [] c \in {15, 35, 55, 75} -> "ActivePowerSum"
    [] c \in {16, 36, 56, 76} -> "ActivePowerDiff"
    [] c \in {17, 37, 57, 77} -> "ActivePowerQi"
    [] c \in {18, 38, 58, 78} -> "ActivePowerQii"
    [] c \in {19, 39, 59, 79} -> "ActivePowerQiii"
    [] c \in {20, 40, 60, 80} -> "ActivePowerQiv"
    [] c = 96 -> (
       CASE d = 1 /\ e \in Id10 -> "ElectricityMeteringPointIdObjects"
         [] d = 5 /\ e \in 0..5 -> "ElectricityRelatedStatusObjects"
         [] d = 10 /\ e \in 0..3 -> "ElectricityRelatedStatusObjects"
         [] OTHER -> "Other")
    [] c = 98 -> "ListObjectsElectricity"
    [] d \in 31..45 /\ f \in Hist -> (
       CASE c \in C1 /\ e \in Up63 -> "ThresholdValues"
         [] c \in T44 /\ e \in Harm -> "ThresholdValues"
         [] OTHER -> "Other")
    [] f \in Hist -> (
       CASE d \in {4, 5, 14, 15, 24, 25, 31, 35, 39} -> (
            CASE c \in C1 /\ e \in Up63 -> "RegisterMonitorObjects"
              [] c \in C2 /\ e \in Harm -> "RegisterMonitorObjects"
              [] OTHER -> "Other")
         [] OTHER -> "Other")
    [] OTHER -> "Electricity"
HcaGroup(b, c, d, e, f) ==
  CASE c = 0 -> (
       CASE d = 0 /\ e \in Id10 -> "IdNumbersHca"
         [] d = 1 /\ e \in {1, 2, 10, 11} -> "BillingPeriodValuesResetCounterEntriesHca"
         [] d = 2 /\ e \in 0..3 -> "GeneralPurposeObjectsHca"
         [] d = 4 /\ e \in 0..6 -> "GeneralPurposeObjectsHca"
         [] d = 5 /\ e \in {10, 11} -> "GeneralPurposeObjectsHca"
         [] d = 8 /\ e \in {0, 4, 6} -> "GeneralPurposeObjectsHca"
         [] d = 9 /\ e \in 1..3 -> "GeneralPurposeObjectsHca"
         [] OTHER -> "Other")
    [] c \in {1, 2} /\ e = 0 -> (
       CASE d \in {0, 6} /\ f = 255 -> "MeasuredValuesHcaConsumption"
         [] d \in 1..5 /\ f \in Hist125 -> "MeasuredValuesHcaConsumption"
         [] OTHER -> "Other")
    [] c \in 3..7 /\ d \in (4..6) \cup {0} /\ e = 255 /\ f = 255 -> "MeasuredValuesHcaTemperature"
    [] c = 97 /\ d = 97 -> "ErrorRegisterObjectsHca"
    [] c = 98 -> "ListObjectsHca"
    [] c = 99 /\ d = 1 -> "DataProfileObjectsHca"
    [] OTHER -> "Hca"
ThermalGroup(b, c, d, e, f) ==
  CASE c = 0 -> (
       CASE d = 0 /\ e \in Id10 -> "IdNumbersThermal"
         [] d = 1 /\ e \in {1, 2, 10, 11} -> "BillingPeriodValuesResetCounterEntriesThermal"
         [] d = 2 /\ e \in (0..4) \cup (10..13) -> "GeneralPurposeObjectsThermal"
         [] d = 4 /\ e \in 1..3 -> "GeneralPurposeObjectsThermal"
         [] d = 5 /\ e \in (1..9) \cup (21..24) -> "GeneralPurposeObjectsThermal"
         [] d = 8 /\ e \in (0..7) \cup (11..14) \cup (21..25) \cup (31..34) -> "GeneralPurposeObjectsThermal"
         [] d = 9 /\ e \in 1..3 -> "GeneralPurposeObjectsThermal"
         [] OTHER -> "Other")
    [] c \in 1..7 -> (
       CASE e \in 0..9 -> (
            CASE d \in (0..3) \cup {7} /\ f = 255 -> "MeasuredValuesThermalConsumption"
              [] d \in {3, 8, 9} /\ f \in Hist125 -> "MeasuredValuesThermalConsumption"
              [] d \in (12..15) \cup {1, 2, 4, 5} /\ f \in 0..125 -> "MeasuredValuesThermalConsumption"
              [] OTHER -> "Other")
         [] d = 6 /\ e = 255 /\ f = 255 -> "MeasuredValuesThermalConsumption"
         [] OTHER -> "Other")
    [] c \in 8..13 /\ e \in 0..9 -> (
       CASE c \in {8, 9} /\ d \in (12..15) \cup {1, 4, 5} /\ f \in Hist125 -> "MeasuredValuesThermalEnergy"
         [] c \in 10..13 /\ d = 0 /\ f = 255 -> "MeasuredValuesThermalEnergy"
         [] c \in 10..13 /\ d \in {4, 5, 14, 15} /\ f \in (0..99) \cup (101..125) -> "MeasuredValuesThermalEnergy"
         [] c \in 10..13 /\ d \in {6, 7, 10, 11} /\ f = 255 -> "MeasuredValuesThermalEnergy"
         [] d \in 20..25 /\ f = 255 -> "MeasuredValuesThermalEnergy"
         [] OTHER -> "Other")
    [] c = 97 /\ d = 97 /\ e \in 0..2 -> "ErrorRegisterObjectsThermal"
    [] c = 98 -> "ListObjectsThermal"
    [] c = 99 /\ f = 255 -> (
       CASE d \in {1, 2} /\ e \in 1..3 -> "DataProfileObjectsThermal"
         [] d = 3 /\ e = 1 -> "DataProfileObjectsThermal"
         [] d = 99 -> "DataProfileObjectsThermal"
         [] OTHER -> "Other")
    [] OTHER -> "Thermal"
GasGroup(b, c, d, e, f) ==
  CASE c = 0 -> (
       CASE d = 0 /\ e \in Id10 -> "IdNumbersGas"
         [] d = 1 -> "BillingPeriodValuesResetCounterEntriesGas"
         [] d \in (2..4) \cup (6..15) -> "GeneralPurposeObjectsGas"
         [] OTHER -> "Other")
    [] c = 96 /\ d = 5 /\ e \in 0..9 -> "InternalOperatingStatusObjectsGas"
    [] c \in (1..8) \cup (11..16) \cup (21..26) \cup (31..35) \cup (61..65) /\ e \in Up63 -> (
       CASE d \in (24..26) \cup (42..44) \cup (63..65) \cup (81..83) /\ f \in (0..99) \cup (101..126) -> "MeasuredValuesGasIndexesAndIndexDifferences"
         [] d \in (6..23) \cup (27..32) \cup (45..50) \cup (66..71) \cup (84..89) /\ f = 255 -> "MeasuredValuesGasIndexesAndIndexDifferences"
         [] d \in (33..41) \cup (52..62) \cup (72..80) \cup (90..98) /\ f \in (0..99) \cup (101..126) \cup {255} -> "MeasuredValuesGasIndexesAndIndexDifferences"
         [] OTHER -> "Other")
    [] c = 43 /\ e = 0 -> (
       CASE d \in (0..2) \cup (15..30) \cup (35..50) \cup (55..70) \cup {13} /\ f = 255 -> "MeasuredValuesGasFlowRate"
         [] d \in (31..34) \cup (51..54) /\ f \in (0..99) \cup (101..126) \cup {255} -> "MeasuredValuesGasFlowRate"
         [] OTHER -> "Other")
    [] c \in (44..49) \cup {41, 42} /\ d \in (15..91) \cup {0, 2, 3, 10, 11, 13} /\ e = 0 /\ f = 255 -> "MeasuredValuesGasProcessValues"
    [] c \in 51..55 -> (
       CASE d \in {0, 2, 3, 10, 11} /\ e \in (11..28) \cup {0, 1} /\ f = 255 -> "ConversionRelatedFactorsAndCoefficientsGas"
         [] d = 12 /\ e \in 0..19 /\ f = 255 -> "CalculationMethodsGas"
         [] OTHER -> "Other")
    [] c = 70 /\ f = 255 -> (
       CASE d \in {8, 9} /\ e = 0 -> "NaturalGasAnalysis"
         [] d \in (10..20) \cup (60..84) /\ e \in (11..28) \cup {0, 1} -> "NaturalGasAnalysis"
         [] OTHER -> "Other")
    [] c = 98 -> "ListObjectsGas"
    [] OTHER -> "Gas"
WaterGroup(b, c, d, e, f) ==
  CASE c = 0 -> (
       CASE d = 0 /\ e \in Id10 -> "IdNumbersWater"
         [] d = 1 /\ e \in (10..12) \cup {1, 2} -> "BillingPeriodValuesResetCounterEntriesWater"
         [] d = 2 /\ e \in {0, 3} -> "GeneralPurposeObjectsWater"
         [] d \in {5, 7} /\ e = 1 -> "GeneralPurposeObjectsWater"
         [] d = 8 /\ e \in {1, 6} -> "GeneralPurposeObjectsWater"
         [] d = 9 /\ e \in 1..3 -> "GeneralPurposeObjectsWater"
         [] OTHER -> "Other")
    [] c = 1 /\ e \in 0..12 -> (
       CASE d \in (0..3) \cup {6} /\ f = 255 -> "MeasuredValuesWaterConsumption"
         [] d \in 1..5 /\ f \in (0..99) \cup (101..125) -> "MeasuredValuesWaterConsumption"
         [] OTHER -> "Other")
    [] c \in {2, 3} /\ e \in 0..12 -> (
       CASE d \in (0..3) \cup {6} /\ f = 255 -> "MeasuredValuesWaterMonitoringValues"
         [] d \in 1..5 /\ f \in (0..99) \cup (101..125) -> "MeasuredValuesWaterMonitoringValues"
         [] OTHER -> "Other")
    [] c = 97 /\ d = 97 -> "ErrorRegisterObjectsWater"
    [] c = 98 -> "ListObjectsWater"
    [] c = 99 /\ d = 1 -> "DataProfileObjectsWater"
    [] OTHER -> "Water"

\* medium 15 and reserved media have no groups
Group(n) ==
  CASE Medium(n[1]) = "Abstract" -> AbstractGroup(n[2], n[3], n[4], n[5], n[6])
    [] Medium(n[1]) = "Electricity" -> ElectricityGroup(n[2], n[3], n[4], n[5], n[6])
    [] Medium(n[1]) = "Hca" -> HcaGroup(n[2], n[3], n[4], n[5], n[6])
    [] Medium(n[1]) = "Thermal" -> ThermalGroup(n[2], n[3], n[4], n[5], n[6])
    [] Medium(n[1]) = "Gas" -> GasGroup(n[2], n[3], n[4], n[5], n[6])
    [] Medium(n[1]) = "Water" -> WaterGroup(n[2], n[3], n[4], n[5], n[6])
    [] OTHER -> "Other"
=============================================================================
