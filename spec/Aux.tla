--------------------------------- MODULE Aux ---------------------------------
(* The three auxiliary files (characterisation, configuration, constants) as *)
(* the algorithms see them.  A value is [t, n, s]: its type, a number in     *)
(* 1/1000 (or the length of a list), a text.                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Val(t, n, s) == [t |-> t, n |-> n, s |-> s]
Missing == Val("missing", 0, "")
Error == Val("error", 0, "")
Nothing == Val("null", 0, "")

Version == [CHD |-> 1, CNF |-> 3, CST |-> 0]

\* attribute -> <<name in the file, conversion, optional>>
P(n, k) == [name |-> n, kind |-> k, opt |-> FALSE]
Q(n, k) == [name |-> n, kind |-> k, opt |-> TRUE]
CST == [c |-> P("c_cst", "float"), pi |-> P("pi_cst", "float"), semi_major_axis |-> P("semi_major_axis_cst", "float"),
        semi_minor_axis |-> P("semi_minor_axis_cst", "float"), earth_radius |-> P("earth_radius_cst", "float"),
        flat_coeff |-> P("flat_coeff_cst", "float"), sec_in_day |-> P("sec_in_day_cst", "float")]
CHD == [mean_sat_alt |-> P("mean_sat_alt_chd", "float"), n_samples_sar |-> P("N_samples_sar_chd", "int"),
        n_ku_pulses_burst |-> P("N_ku_pulses_burst_chd", "int"), freq_ku |-> P("freq_ku_chd", "float"),
        pulse_length |-> P("pulse_length_chd", "float"), bw_ku |-> P("bw_ku_chd", "float"),
        power_tx_ant_ku |-> P("power_tx_ant_ku_chd", "float"), antenna_gain_ku |-> P("antenna_gain_ku_chd", "float"),
        uso_freq_nom |-> P("uso_freq_nom_chd", "float"), alt_freq_multiplier |-> P("alt_freq_multiplier_chd", "float"),
        prf_sar |-> P("prf_sar_chd", "float"), brf_sar |-> P("brf_sar_chd", "float"),
        antenna_weights |-> P("antenna_weights_chd", "array"), antenna_angles |-> P("antenna_angles_chd", "array"),
        antenna_angles_spacing |-> P("antenna_angles_spacing_chd", "float"),
        look_angle_mask_min |-> Q("look_angle_mask_min_chd", "rad"), look_angle_mask_max |-> Q("look_angle_mask_max_chd", "rad"),
        ptr_width |-> P("ptr_width_chd", "float"), fft_step_freq_ku |-> P("fft_step_freq_ku_chd", "float"),
        ratio_trc_ku |-> P("ratio_trc_ku_chd", "float")]
CNF == [flag_cal2_correction |-> P("flag_cal2_correction_cnf", "raw"), flag_uso_correction |-> P("flag_uso_correction_cnf", "raw"),
        flag_cal2_table_index |-> P("flag_cal2_table_index_cnf", "int"), flag_cal1_corrections |-> P("flag_cal1_corrections_cnf", "raw"),
        flag_cal1_intraburst_corrections |-> P("flag_cal1_intraburst_corrections_cnf", "raw"),
        flag_surface_focusing |-> P("flag_surface_focusing_cnf", "bool"), surface_focusing_lat |-> P("surface_focusing_lat_cnf", "rad"),
        surface_focusing_lon |-> P("surface_focusing_lon_cnf", "rad"), surface_focusing_alt |-> P("surface_focusing_alt_cnf", "raw"),
        flag_azimuth_processing_method |-> P("flag_azimuth_processing_method_cnf", "azimuth"),
        flag_azimuth_windowing_method |-> P("flag_azimuth_windowing_method_cnf", "window"),
        azimuth_window_width |-> P("azimuth_window_width_cnf", "raw"), flag_doppler_range_correction |-> P("flag_doppler_range_correction_cnf", "raw"),
        flag_slant_range_correction |-> P("flag_slant_range_correction_cnf", "raw"),
        flag_window_delay_alignment_method |-> P("flag_window_delay_alignment_method_cnf", "raw"),
        flag_stack_masking |-> P("flag_stack_masking_cnf", "bool"),
        flag_avoid_zeros_in_multilooking |-> P("flag_avoid_zeros_in_multilooking_cnf", "raw"),
        flag_surface_weighting |-> P("flag_surface_weighting_cnf", "raw"), flag_antenna_weighting |-> P("flag_antenna_weighting_cnf", "truth"),
        zp_fact_range |-> P("zp_fact_range_cnf", "raw"), n_looks_stack |-> P("N_looks_stack_cnf", "raw"),
        min_lat |-> Q("min_lat_cnf", "raw"), max_lat |-> Q("max_lat_cnf", "raw"), min_lon |-> Q("min_lon_cnf", "raw"), max_lon |-> Q("max_lon_cnf", "raw"),
        output_format |-> Q("output_format_flag_cnf", "format")]
Attr(cls) == CASE cls = "CST" -> CST [] cls = "CHD" -> CHD [] cls = "CNF" -> CNF
Known(cls) == {Attr(cls)[a].name : a \in DOMAIN Attr(cls)}

Number(v) == v.t \in {"int", "float", "bool"}
Enums == [azimuth |-> {"approx", "exact"}, window |-> {"none", "boxcar", "hanning", "hamming"}, format |-> {"sentinel-3", "extended"}]
Arr == 250
\* towards zero
Trunc(n) == IF n >= 0 THEN (n \div 1000) * 1000 ELSE -((-n) \div 1000) * 1000

\* what is seen of the value v in the file; a set: where several answers are fine
Seen(k, v) ==
  CASE k = "raw" -> IF Number(v) THEN {Val(t, v.n, v.s) : t \in {"int", "float", "bool"}} ELSE {v}
    [] k = "float" -> IF Number(v) THEN {Val("float", v.n, "")} ELSE {Error}
    [] k = "int" -> IF Number(v) THEN {Val("int", Trunc(v.n), "")} ELSE {Error}
    [] k = "bool" -> IF Number(v) THEN {Val("bool", IF v.n = 0 THEN 0 ELSE 1000, "")} ELSE IF v.t = "null" THEN {Error}
                     ELSE {Error, Val("bool", 0, ""), Val("bool", 1000, "")}       \* not a truth value: up to the code
    [] k = "truth" -> IF Number(v) THEN {Val(t, n, "") : t \in {"float", "bool", "int"}, n \in IF v.n = 0 THEN {0} ELSE {1000, v.n}} ELSE {Error}
    [] k = "rad" -> IF v.t = "null" THEN {Nothing} ELSE IF Number(v) THEN {Val("angle", v.n, "")} ELSE {Error}
    [] k = "array" -> IF v.t = "null" THEN {Nothing, Error} ELSE IF v.t = "list" /\ v.n = Arr THEN {Val("array", Arr, v.s)} ELSE {Error}
    [] OTHER -> IF v.t = "str" /\ v.s \in Enums[k] THEN {Val("enum", 0, v.s)} ELSE {Error}
Default(p) == IF p.kind = "format" THEN Val("enum", 0, "extended") ELSE Nothing

\* data: set of <<name, value>>
Of(data, n) == IF \E x \in data : x[1] = n THEN (CHOOSE x \in data : x[1] = n)[2] ELSE Missing
Get(cls, data, a) ==
  LET p == Attr(cls)[a]
      v == Of(data, p.name)
  IN  IF v = Missing THEN (IF p.opt THEN {Default(p)} ELSE {Error}) ELSE Seen(p.kind, v)

\* loading a document [ok, v, p] with the overriding values o
Loads(cls, d) == d.ok /\ d.v = Version[cls]
Loaded(d, o) == {x \in d.p : \A y \in o : y[1] # x[1]} \cup o
Unknown(cls, d) == {x[1] : x \in d.p} \ Known(cls)
=============================================================================
