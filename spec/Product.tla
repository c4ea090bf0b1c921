------------------------------- MODULE Product -------------------------------
(* What the variables of a product mean: the quantity of the record they hold, *)
(* the resolution they hold it with and the values they can hold.              *)
(*                                                                             *)
(* Numbers are pairs <<h, l>> for h * 10^6 + l (0 <= l < 10^6), counted in     *)
(* steps of the quantity; "nan" is <<>>, and so is a missing value.            *)
EXTENDS Integers, Sequences, FiniteSets

M == 1000000
Num(h, l) == <<h + (l \div M), l % M>>
Small(x) == Num(0, x)
Nan == <<>>
Add(a, b) == IF a = Nan \/ b = Nan THEN Nan ELSE Num(a[1] + b[1], a[2] + b[2])
Neg(a) == IF a = Nan THEN Nan ELSE Num(-a[1], -a[2])
Sub(a, b) == Add(a, Neg(b))
Scale(a, d) == Num(a[1] * d, a[2] * d)                 \* d <= 1000
Less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Leq(a, b) == ~Less(b, a)
Abs2(a) == IF a[1] < 0 THEN Neg(a) ELSE a
Close(a, b, tol) == Leq(Abs2(Sub(a, b)), Small(tol))
Over(a, d) == <<a[1] \div d, (((a[1] % d) * M) + a[2]) \div d>>     \* d <= 1000, a >= 0

(* the types of the file: smallest and largest packed value, and the value that means "missing" *)
Lowest(t) == CASE t = "i1" -> Small(-128) [] t = "i2" -> Small(-32768) [] t = "i4" -> Num(-2147, -483648) [] OTHER -> Small(0)
Highest(t) == CASE t = "i1" -> Small(127) [] t = "i2" -> Small(32767) [] t = "i4" -> Num(2147, 483647)
                [] t = "u1" -> Small(255) [] t = "u2" -> Small(65535) [] t = "u4" -> Num(4294, 967295)
Missing(t) == Highest(t)

(* a variable: n name, s source, d steps per unit of the packed value, t type, o offset in steps, f what means missing *)
V(n, s, d, t) == [n |-> n, s |-> s, d |-> d, t |-> t, o |-> Small(0), f |-> IF t = "f8" THEN Nan ELSE Missing(t)]
Off(v, o) == [v EXCEPT !.o = o]
Fill(v, f) == [v EXCEPT !.f = f]

(* in all products *)
Common == {
  V("time", "time", 1, "f8"), V("UTC_day", "utcday", 1, "i2"), V("UTC_sec", "utcsec", 1, "f8"),
  V("lat", "lat", 10, "i4"), V("lon", "lon", 10, "i4"), Off(V("alt", "alt", 10, "i4"), Num(70000, 0) \* 700 km in 1e-5 m
  ), V("orb_alt_rate", "altrate", 10, "i2"),
  V("x_pos", "x", 1, "f8"), V("y_pos", "y", 1, "f8"), V("z_pos", "z", 1, "f8"),
  V("x_vel", "vx", 1, "f8"), V("y_vel", "vy", 1, "f8"), V("z_vel", "vz", 1, "f8"),
  Off(V("range_ku", "range", 10, "i4"), Num(70000, 0)),
  V("uso_cor", "uso", 10, "i4"), V("int_path_cor_ku", "path", 10, "i4"),
  V("agc_ku", "agc", 10, "i4"), V("scale_factor_ku", "sigma0", 10, "i4"), V("sig0_cal_ku", "sig0cal", 10, "i4"),
  V("stdev_stack", "std", 10, "u4"), V("skew_stack", "skew", 10, "i4"), V("kurt_stack", "kurt", 10, "i4")}

(* in both kinds of L1B products: mostly taken over from the burst closest to the surface *)
L1B == Common \cup {
  V("GPS_time", "gps", 1, "f8"),
  V("isp_coarse_time", "isp_coarse_time", 1, "u4"), V("isp_fine_time", "isp_fine_time", 1, "i4"), V("sral_fine_time", "sral_fine_time", 1, "u4"),
  Fill(V("flag_time_status", "flag_time_status", 1, "i1"), Small(-127)),
  V("nav_bul_status", "nav_bul_status", 1, "i1"), V("nav_bul_source", "nav_bul_source", 1, "i1"),
  V("nav_bul_coarse_time", "none", 1, "u4"), V("nav_bul_fine_time", "none", 1, "u4"),
  V("seq_count", "source_seq_count", 1, "u2"), V("oper_instr", "oper_instr", 1, "i1"), V("SAR_mode", "SAR_mode", 1, "i1"),
  V("cl_gain", "cl_gain", 1, "i1"), V("acq_stat", "acq_stat", 1, "i1"), V("dem_eeprom", "dem_eeprom", 1, "i1"),
  V("weighting", "none", 1, "i1"), V("loss_track", "loss_track", 1, "i1"),
  V("h0_nav_dem", "h0_nav_dem", 1, "u4"), V("h0_applied", "h0_applied", 1, "u4"),
  V("cor2_nav_dem", "cor2_nav_dem", 1, "i2"), V("cor2_applied", "cor2_applied", 1, "i2"), V("dh0", "dh0", 1, "i4"),
  Fill(V("agccode_ku", "agccode", 1, "i2"), Small(127)),
  Fill(V("surf_type", "surf_type", 1, "i1"), Small(-127)),
  V("range_rate", "none", 1, "i4"), V("agc_cor_ku", "agccor", 10, "i4"),
  V("max_stack", "max", 1000, "u4"), V("beam_form", "none", 1, "u2")}
S3 == L1B \cup {
  V("nb_stack", "size", 1, "u2"), V("beam_ang", "minuslook", 10, "i2"), V("i2q2_meas_ku", "wave", 10, "u4")}
Pointing == {V("roll_sat_pointing", "roll", 10, "i2"), V("pitch_sat_pointing", "pitch", 10, "i2"), V("yaw_sat_pointing", "yaw", 10, "i2")}
HalfPi == Num(15, 700000)                                               \* 1.57 rad in 1e-7 rad
StackAngles == {
  V("start_look_angle_stack", "startlook", 10, "i2"), V("stop_look_angle_stack", "stoplook", 10, "i2"),
  Off(V("start_beam_ang_stack", "startbeam", 10, "i2"), HalfPi), Off(V("stop_beam_ang_stack", "stopbeam", 10, "i2"), HalfPi)}
Extended == L1B \cup Pointing \cup StackAngles \cup {
  V("nb_stack", "used", 1, "u2"), Off(V("beam_ang", "beam", 10, "i2"), HalfPi), V("look_ang", "look", 10, "i2"),
  V("waveform", "wave", 10, "f8"),                              \* i2q2_meas_ku * i2q2_scale_factor
  V("i2q2_scale_factor", "peak", 10, "f8"),
  V("stack_mask_vector", "mask", 1, "i2"), V("stack_scale_factor_ku", "sigma0beam", 10, "i4")}
L1BS == Common \cup Pointing \cup StackAngles \cup {
  V("surf_type", "kind", 1, "i1"), V("records_count", "count", 1, "i4"),
  V("meas_x_pos", "xs", 1, "f8"), V("meas_y_pos", "ys", 1, "f8"), V("meas_z_pos", "zs", 1, "f8"),
  V("roll_sral_mispointing", "mroll", 10, "i2"), V("pitch_sral_mispointing", "mpitch", 10, "i2"), V("yaw_sral_mispointing", "myaw", 10, "i2"),
  V("cog_cor", "cog", 10, "i2"), V("agccode_ku", "agccode", 1, "i1"), V("snr_ku", "none", 1, "i4"),
  V("i2q2_meas_ku", "wave", 10, "u4"),                          \* after the gain has been taken out
  V("nb_stack", "size", 1, "u2"), V("max_stack", "max", 10, "u4"), V("max_loc_stack", "none", 1, "u2"),
  Off(V("beam_ang", "beamused", 10, "i2"), HalfPi), V("beam_form", "none", 1, "u1"),
  V("burst_start_ind", "first", 1, "i4"), V("burst_stop_ind", "last", 1, "i4"),
  V("power_var_stack", "none", 1, "i2")}
Table(k) == CASE k = "s3" -> S3 [] k = "extended" -> Extended [] k = "l1bs" -> L1BS

(* in which unit a variable of quantity s is ("": not stated) *)
Unit(s) ==
  CASE s = "time" -> "seconds since 2000-01-01 00:00:00.0" [] s = "utcday" -> "days since 2000-01-01 00:00:00.0"
    [] s = "gps" -> "seconds since 1980-01-06 00:00:00.0" [] s = "utcsec" -> "seconds in the day"
    [] s = "lat" -> "degrees_north" [] s = "lon" -> "degrees_east"
    [] s \in {"alt", "x", "y", "z", "xs", "ys", "zs", "range", "uso", "path", "cog"} -> "m"
    [] s \in {"altrate", "vx", "vy", "vz"} -> "m/s"
    [] s \in {"agc", "agccode", "agccor", "sigma0", "sig0cal", "sigma0beam"} -> "dB"
    [] s \in {"roll", "pitch", "yaw", "mroll", "mpitch", "myaw"} -> "degrees"
    [] s \in {"startlook", "stoplook", "startbeam", "stopbeam", "look", "minuslook", "beam", "beamused", "std"} -> "rad"
    [] s \in {"wave", "peak", "size", "used", "first", "last", "count", "mask", "skew", "kurt"} -> "count"
    [] s = "max" -> "FFT power unit"
    [] OTHER -> ""
(* flags: as many meanings as values, no value twice *)
FlagsFit(values, meanings) == Len(values) = meanings /\ \A i, j \in DOMAIN values : values[i] = values[j] => i = j

(* the quantities of a record r; e: what the file keeps of the record (a sequence, as every quantity) *)
Next24(r) == Add(r.prevsec[1], Sub(r.time[1], r.prevtai[1]))           \* seconds of the UTC day of the burst before
Rolls(r) == Leq(r.daylen[1], Next24(r))
Quantity(r, s) ==
  CASE s = "utcsec" -> <<IF Rolls(r) THEN Sub(Next24(r), r.daylen[1]) ELSE Next24(r)>>
    [] s = "utcday" -> <<IF Rolls(r) THEN Add(r.prevday[1], Small(1)) ELSE r.prevday[1]>>
    [] s = "gps" -> <<Add(r.time[1], Num(630719981, 0))>>              \* GPS time begins on 6 January 1980 and lacks 19 s
    [] s = "agccor" -> <<Sub(r.agc[1], Small(1000 * r.agccode[1][2] + (IF r.agccode[1][1] < 0 THEN -1000 * M ELSE 0)))>>
    [] s = "minuslook" -> [x \in DOMAIN r.look |-> Neg(r.look[x])]
    [] s = "none" -> <<>>
    [] OTHER -> r[s]

(* may value e of variable v be read as a *)
ReadsAs(v, e, a) ==
  LET tol == IF v.d = 1 THEN (IF v.t = "f8" THEN 1 ELSE 0) ELSE v.d
      low == Add(v.o, Scale(Lowest(v.t), v.d))
      high == Add(v.o, Scale(Highest(v.t), v.d))
      fill == Add(v.o, Scale(v.f, v.d))
  IN IF e = Nan THEN a = Nan
     ELSE IF v.t = "f8" THEN a # Nan /\ Close(a, e, tol)
     ELSE IF Less(e, Sub(low, Small(tol))) \/ Less(Add(high, Small(tol)), e) THEN a = Nan    \* cannot be held
     ELSE IF v.d = 1 THEN IF e = fill \/ Less(e, low) \/ Less(high, e) THEN a = Nan ELSE a = e
     ELSE \/ a # Nan /\ Close(a, e, tol)
          \/ a = Nan /\ (Less(e, Add(low, Small(tol))) \/ Less(Sub(high, Small(tol)), e) \/ Close(e, fill, tol))
(* what is behind the end of a list is missing *)
At(q, i) == IF i <= Len(q) THEN q[i] ELSE Nan
==============================================================================
