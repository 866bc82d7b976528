------------------------------- MODULE Reached --------------------------------
(* What names reach: an attribute and a method of an object through the name *)
(* of its class, an element of a structure through the name of the element;  *)
(* names of what a profile captures and of what a script does.               *)
EXTENDS Typed

NSeason == <<"season_profile_name", "season_start", "week_name">>
NWeekProfile == <<"week_profile_name", "monday", "tuesday", "wednesday", "thursday", "friday", "saturday", "sunday">>
NDayProfile == <<"day_id", "day_schedule">>
NDayProfileAction == <<"start_time", "script_logical_name", "script_selector">>
NActionItem == <<"script_logical_name", "script_selector">>
NRequestAction == <<"request_actor", "request_action_list">>
NObjectListElement == <<"class_id", "version", "logical_name", "access_rights">>
NAccessRight == <<"attribute_access", "method_access">>
NAttributeAccessItem == <<"attribute_id", "access_mode", "access_selectors">>
NMethodAccessItem == <<"method_id", "access_mode">>
NAssociatedPartnersType == <<"client_SAP", "server_SAP">>
NApplicationContextName == <<"joint_iso_ctt_element", "country_element", "country_name_element", "identified_organization_element", "DLMS_UA_element", "application_context_element", "context_id_element">>
NXDLMSContextType == <<"conformance", "max_receive_pdu_size", "max_send_pdu_size", "dlms_version_number", "quality_of_service", "cyphering_info">>
NAuthenticationMechanismName == <<"joint_iso_ctt_element", "country_element", "country_name_element", "identified_organization_element", "DLMS_UA_element", "authentication_mechanism_name_element", "mechanism_id_element">>
NPresetAdjustingTime == <<"preset_time", "validity_interval_start", "validity_interval_end">>
NScalUnitType == <<"scaler", "unit">>
NQualityOfService == <<"default", "requested">>
NQoSElement == <<"precedence", "delay", "reliability", "peak_throughput", "mean_throughput">>
NCellInfoType == <<"cell_ID", "location_ID", "signal_quality", "ber">>
NAdjacentCellInfo == <<"cell_ID", "signal_quality">>
NCellInfoType2 == <<"cell_ID", "location_ID", "signal_quality", "ber", "mcc", "mnc", "channel_number">>
NImageToActivateInfoElement == <<"image_to_activate_size", "image_to_activate_identification", "image_to_activate_signature">>
NImageTransferInitiate == <<"image_identifier", "image_size">>
NImageBlockTransfer == <<"image_block_number", "image_block_value">>
NBitMapData == <<"start_time", "stop_time", "bitmap_data">>
NKPZGSMPingIPValue == <<"enable", "multicast_IP_address">>
NCaptureObjectDefinition == <<"class_id", "logical_name", "attribute_index", "data_index">>
NIPOptionsElement == <<"IP_Option_Type", "IP_Option_Length", "IP_Option_Data">>
NValueDefinition == <<"class_id", "logical_name", "attribute_index">>
NEmergencyProfileType == <<"emergency_profile_id", "emergency_activation_time", "emergency_duration">>
NActionType == <<"action_over_threshold", "action_under_threshold">>
NInitializationStringElement == <<"request", "response">>
NInitializationStringElement2 == <<"request", "response", "delay_after_response">>
NAuthenticationKey == <<"key_id", "key">>
NPushObjectDefinition == <<"class_id", "logical_name", "attribute_index", "data_index", "restriction", "column">>
NRestrictionElement == <<"restriction_type", "restriction_value">>
NRestrictionByDate == <<"from_date", "to_date">>
NRestrictionByEntry == <<"from_entry", "to_entry">>
NSendDestinationAndMethod == <<"transport_service", "destination", "message">>
NWindowElement == <<"start_time", "end_time">>
NRepetitionDelay == <<"repetition_delay_min", "repetition_delay_exponent", "repetition_delay_max">>
NProtectionParametersElement == <<"protection_type", "protection_options">>
NProtectionOptions == <<"transaction_id", "originator_system_title", "recipient_system_title", "other_information", "key_info">>
NKeyInfoElement == <<"key_info_type", "key_info_options">>
NConfirmationParameters == <<"confirmation_start_date", "confirmation_interval">>
NObjectDefinition == <<"class_id", "logical_name">>
NRegisterActMask == <<"mask_name", "index_list">>
NActionSet == <<"action_up", "action_down">>
NScheduleTableEntry == <<"index", "enable", "script_logical_name", "script_selector", "switch_time", "validity_window", "exec_weekdays", "exec_specdays", "begin_date", "end_date">>
NDataED == <<"firstIndexA", "lastIndexA", "firstIndexB", "lastIndexB">>
NDataDelete == <<"firstIndex", "lastIndex">>
NScript == <<"script_identifier", "actions">>
NActionSpecification == <<"service_id", "class_id", "logical_name", "index", "parameter">>
NKeyData == <<"key_id", "key_wrapped">>
NCertificateInfo == <<"certificate_entity", "certificate_type", "serial_number", "issuer", "subject", "subject_alt_name">>
NKeyAgreementData == <<"key_id", "key_data">>
NCertificateIdentification == <<"certificate_identification_type", "certification_identification_options">>
NCertificateIdentificationByEntity == <<"certificate_entity", "certificate_type", "system_title">>
NCertificateIdentificationBySerial == <<"serial_number", "issuer">>
NExecutionTimeDate == <<"time", "date">>
NSpecDayEntry == <<"index", "specialday_date", "day_id">>
\* the structures within an attribute (a method's parameter), the outer before the inner, the earlier before the later
StructNames(key, meth, i) ==
  CASE (key = "activity_calendar:ActivityCalendar" /\ ~meth /\ i = 3) \/ (key = "activity_calendar:ActivityCalendar" /\ ~meth /\ i = 7) -> <<NSeason>>
    [] (key = "activity_calendar:ActivityCalendar" /\ ~meth /\ i = 4) \/ (key = "activity_calendar:ActivityCalendar" /\ ~meth /\ i = 8) -> <<NWeekProfile>>
    [] (key = "activity_calendar:ActivityCalendar" /\ ~meth /\ i = 5)
         \/ (key = "activity_calendar:ActivityCalendar" /\ ~meth /\ i = 9)
         -> <<NDayProfile, NDayProfileAction>>
    [] (key \in {"arbitrator:Arbitrator", "implementations.arbitrator:SPODES3Arbitrator", "single_action_schedule:SingleActionSchedule"} /\ ~meth /\ i = 2)
         -> <<NActionItem>>
    [] (key \in {"arbitrator:Arbitrator", "implementations.arbitrator:SPODES3Arbitrator"} /\ meth /\ i = 1) -> <<NRequestAction>>
    [] (key \in {"association_ln.ver0:AssociationLN", "association_ln.ver1:AssociationLN", "association_ln.ver2:AssociationLN"} /\ ~meth /\ i = 2)
         \/ (key \in {"association_ln.ver0:AssociationLN", "association_ln.ver1:AssociationLN", "association_ln.ver2:AssociationLN"} /\ meth /\ i = 3)
         \/ (key \in {"association_ln.ver0:AssociationLN", "association_ln.ver1:AssociationLN", "association_ln.ver2:AssociationLN"} /\ meth /\ i = 4)
         -> <<NObjectListElement, NAccessRight, NAttributeAccessItem, NMethodAccessItem>>
    [] (key \in {"association_ln.ver0:AssociationLN", "association_ln.ver1:AssociationLN", "association_ln.ver2:AssociationLN"} /\ ~meth /\ i = 3)
         -> <<NAssociatedPartnersType>>
    [] (key \in {"association_ln.ver0:AssociationLN", "association_ln.ver1:AssociationLN", "association_ln.ver2:AssociationLN"} /\ ~meth /\ i = 4)
         -> <<NApplicationContextName>>
    [] (key \in {"association_ln.ver0:AssociationLN", "association_ln.ver1:AssociationLN", "association_ln.ver2:AssociationLN"} /\ ~meth /\ i = 5)
         -> <<NXDLMSContextType>>
    [] (key \in {"association_ln.ver0:AssociationLN", "association_ln.ver1:AssociationLN", "association_ln.ver2:AssociationLN"} /\ ~meth /\ i = 6)
         -> <<NAuthenticationMechanismName>>
    [] (key = "clock:Clock" /\ meth /\ i = 5) -> <<NPresetAdjustingTime>>
    [] (key = "demand_register.ver0:DemandRegister" /\ ~meth /\ i = 4)
         \/ (key \in {"extended_register:ExtendedRegister", "register:Register"} /\ ~meth /\ i = 3)
         -> <<NScalUnitType>>
    [] (key = "gprs_modem_setup:GPRSModemSetup" /\ ~meth /\ i = 4) -> <<NQualityOfService, NQoSElement, NQoSElement>>
    [] (key = "gsm_diagnostic.ver0:GSMDiagnostic" /\ ~meth /\ i = 6) -> <<NCellInfoType>>
    [] (key \in {"gsm_diagnostic.ver0:GSMDiagnostic", "gsm_diagnostic.ver1:GSMDiagnostic"} /\ ~meth /\ i = 7) -> <<NAdjacentCellInfo>>
    [] (key = "gsm_diagnostic.ver1:GSMDiagnostic" /\ ~meth /\ i = 6) -> <<NCellInfoType2>>
    [] (key = "image_transfer.ver0:ImageTransfer" /\ ~meth /\ i = 7) -> <<NImageToActivateInfoElement>>
    [] (key = "image_transfer.ver0:ImageTransfer" /\ meth /\ i = 1) -> <<NImageTransferInitiate>>
    [] (key = "image_transfer.ver0:ImageTransfer" /\ meth /\ i = 2) -> <<NImageBlockTransfer>>
    [] (key = "implementations.data:ITEBitMap" /\ ~meth /\ i = 2) -> <<NBitMapData>>
    [] (key = "implementations.data:KPZGSMPingIP" /\ ~meth /\ i = 2) -> <<NKPZGSMPingIPValue>>
    [] (key \in {"implementations.profile_generic:SPODES3CurrentProfile",
              "implementations.profile_generic:SPODES3DailyProfile",
              "implementations.profile_generic:SPODES3DisplayReadout",
              "implementations.profile_generic:SPODES3LoadProfile",
              "implementations.profile_generic:SPODES3MonthProfile",
              "implementations.profile_generic:SPODES3ScalesProfile",
              "profile_generic.ver1:ProfileGeneric"} /\ ~meth /\ i = 3)
         \/ (key \in {"implementations.profile_generic:SPODES3CurrentProfile",
              "implementations.profile_generic:SPODES3DailyProfile",
              "implementations.profile_generic:SPODES3DisplayReadout",
              "implementations.profile_generic:SPODES3LoadProfile",
              "implementations.profile_generic:SPODES3MonthProfile",
              "implementations.profile_generic:SPODES3ScalesProfile",
              "profile_generic.ver1:ProfileGeneric"} /\ ~meth /\ i = 6)
         -> <<NCaptureObjectDefinition>>
    [] (key = "ipv4_setup:IPv4Setup" /\ ~meth /\ i = 5) -> <<NIPOptionsElement>>
    [] (key = "limiter:Limiter" /\ ~meth /\ i = 2) \/ (key = "register_monitor:RegisterMonitor" /\ ~meth /\ i = 3) -> <<NValueDefinition>>
    [] (key = "limiter:Limiter" /\ ~meth /\ i = 8) -> <<NEmergencyProfileType>>
    [] (key = "limiter:Limiter" /\ ~meth /\ i = 11) -> <<NActionType, NActionItem, NActionItem>>
    [] (key = "modem_configuration.ver0:PSTNModemConfiguration" /\ ~meth /\ i = 3) -> <<NInitializationStringElement>>
    [] (key = "modem_configuration.ver1:ModemConfigurationVer1" /\ ~meth /\ i = 3) -> <<NInitializationStringElement2>>
    [] (key = "ntp_setup.ver0:NTPSetup" /\ ~meth /\ i = 6) \/ (key = "ntp_setup.ver0:NTPSetup" /\ meth /\ i = 2) -> <<NAuthenticationKey>>
    [] (key = "push_setup.ver2:PushSetup" /\ ~meth /\ i = 2)
         -> <<NPushObjectDefinition, NRestrictionElement, NRestrictionByDate, NRestrictionByEntry, NCaptureObjectDefinition>>
    [] (key = "push_setup.ver2:PushSetup" /\ ~meth /\ i = 3) -> <<NSendDestinationAndMethod>>
    [] (key = "push_setup.ver2:PushSetup" /\ ~meth /\ i = 4) -> <<NWindowElement>>
    [] (key = "push_setup.ver2:PushSetup" /\ ~meth /\ i = 7) -> <<NRepetitionDelay>>
    [] (key = "push_setup.ver2:PushSetup" /\ ~meth /\ i = 10) -> <<NProtectionParametersElement, NProtectionOptions, NKeyInfoElement>>
    [] (key = "push_setup.ver2:PushSetup" /\ ~meth /\ i = 12) -> <<NConfirmationParameters>>
    [] (key = "register_activation.ver0:RegisterActivation" /\ ~meth /\ i = 2)
         \/ (key = "register_activation.ver0:RegisterActivation" /\ meth /\ i = 1)
         -> <<NObjectDefinition>>
    [] (key = "register_activation.ver0:RegisterActivation" /\ ~meth /\ i = 3)
         \/ (key = "register_activation.ver0:RegisterActivation" /\ meth /\ i = 2)
         -> <<NRegisterActMask>>
    [] (key = "register_monitor:RegisterMonitor" /\ ~meth /\ i = 4) -> <<NActionSet, NActionItem, NActionItem>>
    [] (key = "schedule:Schedule" /\ ~meth /\ i = 2) \/ (key = "schedule:Schedule" /\ meth /\ i = 2) -> <<NScheduleTableEntry>>
    [] (key = "schedule:Schedule" /\ meth /\ i = 1) -> <<NDataED>>
    [] (key = "schedule:Schedule" /\ meth /\ i = 3) -> <<NDataDelete>>
    [] (key = "script_table:ScriptTable" /\ ~meth /\ i = 2) -> <<NScript, NActionSpecification>>
    [] (key \in {"security_setup.ver0:SecuritySetup", "security_setup.ver1:SecuritySetup"} /\ meth /\ i = 2) -> <<NKeyData>>
    [] (key = "security_setup.ver1:SecuritySetup" /\ ~meth /\ i = 6) -> <<NCertificateInfo>>
    [] (key = "security_setup.ver1:SecuritySetup" /\ meth /\ i = 3) -> <<NKeyAgreementData>>
    [] (key = "security_setup.ver1:SecuritySetup" /\ meth /\ i = 7)
         \/ (key = "security_setup.ver1:SecuritySetup" /\ meth /\ i = 8)
         -> <<NCertificateIdentification, NCertificateIdentificationByEntity, NCertificateIdentificationBySerial>>
    [] (key = "single_action_schedule:SingleActionSchedule" /\ ~meth /\ i = 4) -> <<NExecutionTimeDate>>
    [] (key = "special_days_table:SpecialDaysTable" /\ ~meth /\ i = 2) \/ (key = "special_days_table:SpecialDaysTable" /\ meth /\ i = 1) -> <<NSpecDayEntry>>
    [] OTHER -> <<>>

\* names in use besides those of the schema, and names by which nothing is reached
Aliases(key) ==
  CASE key \in {"arbitrator:Arbitrator", "implementations.arbitrator:SPODES3Arbitrator"} ->
         <<[n |-> "permissions_table", of |-> "permission_table"], [n |-> "most_recent_request_table", of |-> "most_recent_requests_table"]>>
    [] key = "push_setup.ver2:PushSetup" -> <<[n |-> "push_client_SAP", of |-> "push_client_sap"]>>
    [] key = "single_action_schedule:SingleActionSchedule" -> <<[n |-> "type_", of |-> "type"]>>
    [] key = "security_setup.ver1:SecuritySetup" -> <<[n |-> "global_key_transfer", of |-> "key_transfer"]>>
    [] OTHER -> <<>>
Silent(key) ==
  CASE key \in {"arbitrator:Arbitrator", "implementations.arbitrator:SPODES3Arbitrator"} -> {"permission_table", "most_recent_requests_table"}
    [] key \in {"association_ln.ver1:AssociationLN", "association_ln.ver2:AssociationLN"} -> {"security_setup_reference"}
    [] key = "push_setup.ver2:PushSetup" -> {"push_client_sap"}
    [] key = "modem_configuration.ver1:ModemConfigurationVer1" -> {"comm_speed", "modem_profile"}
    [] key = "ntp_setup.ver0:NTPSetup" -> {"synchronize", "add_authentication_key", "delete_authentication_key"}
    [] key = "demand_register.ver0:DemandRegister" -> {"reset", "next_period"}
    [] key = "register_monitor:RegisterMonitor" -> {"actions"}
    [] key = "security_setup.ver1:SecuritySetup" ->
         {"key_agreement", "generate_key_pair", "generate_certificate_request", "import_certificate", "export_certificate", "remove_certificate"}
    [] key = "single_action_schedule:SingleActionSchedule" -> {"type"}
    [] OTHER -> {}

Part(m, i) == [m |-> m, i |-> i]
\* the parts of an object of the class c with the given name of the schema
Named(c, n) == {Part(FALSE, i) : i \in {j \in DOMAIN Attrs(c) : Attrs(c)[j].n = n}} \cup {Part(TRUE, i) : i \in {j \in DOMAIN Meths(c) : Meths(c)[j].n = n}}
SchemaNames(c) == {Attrs(c)[i].n : i \in DOMAIN Attrs(c)} \cup {Meths(c)[i].n : i \in DOMAIN Meths(c)}
AliasNames(c) == {Aliases(Cls(c).key)[i].n : i \in DOMAIN Aliases(Cls(c).key)}
Usable(c) == (SchemaNames(c) \ Silent(Cls(c).key)) \cup AliasNames(c)
Official(c, n) == IF n \in AliasNames(c) THEN LET as == Aliases(Cls(c).key) IN as[CHOOSE i \in DOMAIN as : as[i].n = n].of ELSE n
PartOf(c, n) == CHOOSE p \in Named(c, Official(c, n)) : TRUE

\* an object: the octets of its attributes (none: <<>>) and parameters
Thing(c, ln) == LET o == NewObj(c, ln) IN [c |-> c, a |-> Enc1(o.a), m |-> Enc1(o.m)]
Force(o, i, v) == [o EXCEPT !.a[i] = v]
Emptied(o, i) == [o EXCEPT !.a[i] = <<>>]
ByName(o, n) == LET p == PartOf(o.c, n) IN IF p.m THEN o.m[p.i] ELSE o.a[p.i]

\* objects known to a collection: name ln, class c, the text on for its name, texts at and mt for its attributes and methods
Find(obs, ln) == {i \in DOMAIN obs : obs[i].ln = ln}
Dot == <<46, 32>>
Comma == <<44, 32>>
RECURSIVE Joined(_, _)
Joined(ts, by) == IF ts = <<>> THEN <<>> ELSE IF Len(ts) = 1 THEN ts[1] ELSE ts[1] \o by \o Joined(Tail(ts), by)
Fault(w) == [e |-> w, names |-> <<>>, el |-> "", part |-> 0, ck |-> 0, i |-> 0]
\* the column for the d-th part (0: the whole) of attribute i of the object ln: texts, then the element's name if it is one
Column0(obs, ln, i, d) ==
  LET f == Find(obs, ln)
  IN IF f = {} THEN Fault("missing")
     ELSE LET b == obs[CHOOSE k \in f : TRUE]
          IN IF i \notin DOMAIN Attrs(b.c) THEN Fault("index")
             ELSE LET t == Attrs(b.c)[i].t names == <<b.on, b.at[i]>>
                      inner == IF t.k = "struct" THEN StructNames(Cls(b.c).key, FALSE, i)[1] ELSE <<>>
                  IN IF d = 0 \/ inner = <<>> THEN [e |-> "", names |-> names, el |-> "", part |-> 0, ck |-> b.c, i |-> i]
                     ELSE IF d > Len(inner) THEN Fault("element")
                     ELSE [e |-> "", names |-> names, el |-> inner[d], part |-> d, ck |-> b.c, i |-> i]
IsProfile(c) == Cls(c).id = 7
\* a part of another profile's buffer is what that one captures there
Column(obs, ln, i, d) ==
  LET f == Find(obs, ln) b == obs[CHOOSE k \in f : TRUE]
  IN IF f = {} THEN Fault("missing")
     ELSE IF IsProfile(b.c) /\ i = 2 /\ d # 0
          THEN IF d \notin DOMAIN b.caps THEN Fault("element") ELSE Column0(obs, b.caps[d].ln, b.caps[d].i, b.caps[d].d)
          ELSE Column0(obs, ln, i, d)

\* what a script does, action after action
ActionName(obs, x) ==
  LET f == Find(obs, x.ln)
  IN IF f = {} THEN [e |-> "missing", t |-> <<>>]
     ELSE LET b == obs[CHOOSE k \in f : TRUE] ts == IF x.s = 1 THEN b.at ELSE b.mt
          IN IF Cls(b.c).id # x.k THEN [e |-> "class", t |-> <<>>]
             ELSE IF ~x.nul THEN [e |-> "parameter", t |-> <<>>]
             ELSE IF x.i \notin DOMAIN ts THEN [e |-> "index", t |-> <<>>] ELSE [e |-> "", t |-> ts[x.i]]
ScriptText(obs, scripts, id) ==
  LET hit == {k \in DOMAIN scripts : scripts[k].id = id}
  IN IF hit = {} THEN [e |-> "script", t |-> <<>>]
     ELSE LET sc == scripts[CHOOSE k \in hit : \A j \in hit : k <= j].acts
              ns == [k \in DOMAIN sc |-> ActionName(obs, sc[k])]
          IN IF \E k \in DOMAIN ns : ns[k].e # "" THEN [e |-> "action", t |-> <<>>]
             ELSE [e |-> "", t |-> Joined([k \in DOMAIN ns |-> ns[k].t], Comma)]

\* the readout of a display: a flag for each captured, in rows
Rows(n) == ArrayOf(Struct([i \in 1..n |-> Leaf(3)]))
RowsOk(n, s) == LET r == Read(s) IN r.ok /\ r.rest = <<>> /\ Fits(Rows(n), r.val)
=============================================================================
