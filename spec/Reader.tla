------------------------------- MODULE Reader -------------------------------
(* An L1A product and the records read from it.  All numbers in 1/1000.      *)
(* A file is [n, a, b, lat, lon, agc, pitch, rows]: the value of variable v  *)
(* in record i (from 0) is a[v] + b[v] * i; latitude, longitude, gain and    *)
(* pointing pitch are listed; arrays have `rows` rows of Cols columns.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Cols == 3
Listed == {"lat", "lon", "agc_ku", "pitch_sat_pointing"}
Scalar(f, v, i) ==
  CASE v = "lat" -> f.lat[i + 1] [] v = "lon" -> f.lon[i + 1]
    [] v = "agc_ku" -> f.agc[i + 1] [] v = "pitch_sat_pointing" -> f.pitch[i + 1]
    [] OTHER -> f.a[v] + f.b[v] * i

\* element k (from 0) of an array of a record
Elem(f, v, i, k) == f.a[v] + f.b[v] * i + 1000 * k
Grid(f, v, i) == [k \in 1 .. f.rows * Cols |-> Elem(f, v, i, k - 1)]
Row(f, v, i, r) == [k \in 1 .. Cols |-> Elem(f, v, i, r * Cols + k - 1)]
Line(f, v, i) == [k \in 1 .. f.rows |-> Elem(f, v, i, k - 1)]

Exists(f, i) == i >= 0 /\ i < f.n
Raw(f, v, i) == IF Exists(f, i) THEN Scalar(f, v, i) ELSE -1

\* what the chain sees of a record: name there -> variable of the product
Copied == [time_sar_ku |-> "time", isp_coarse_time |-> "isp_coarse_time", isp_fine_time |-> "isp_fine_time",
  sral_fine_time |-> "sral_fine_time", days |-> "UTC_day", seconds |-> "UTC_sec", burst_sar_ku |-> "burst_count_prod",
  lat_sar_sat |-> "lat", lon_sar_sat |-> "lon", alt_sar_sat |-> "alt", alt_rate_sat_sar |-> "orb_alt_rate",
  x_vel_sat_sar |-> "x_vel", y_vel_sat_sar |-> "y_vel", z_vel_sat_sar |-> "z_vel",
  roll_sar |-> "roll_sral_mispointing", pitch_sar |-> "pitch_sral_mispointing", yaw_sar |-> "yaw_sral_mispointing",
  roll_sral_mispointing |-> "roll_sral_mispointing", pitch_sral_mispointing |-> "pitch_sral_mispointing",
  yaw_sral_mispointing |-> "yaw_sral_mispointing", cog_cor |-> "cog_cor", h0_sar |-> "h0_applied", uso_cor |-> "uso_cor",
  cor2_sar |-> "cor2_applied", flag_time_status |-> "flag_time_status", nav_bul_status |-> "nav_bul_status",
  nav_bul_source |-> "nav_bul_source", source_seq_count |-> "seq_count", oper_instr |-> "oper_instr", SAR_mode |-> "SAR_mode",
  cl_gain |-> "cl_gain", acq_stat |-> "acq_stat", dem_eeprom |-> "dem_eeprom", loss_track |-> "loss_track",
  h0_nav_dem |-> "h0_nav_dem", h0_applied |-> "h0_applied", cor2_nav_dem |-> "cor2_nav_dem", cor2_applied |-> "cor2_applied",
  dh0 |-> "dh0", agccode_ku |-> "agccode_ku", range_ku |-> "range_ku", int_path_cor_ku |-> "int_path_cor_ku",
  agc_ku |-> "agc_ku", sig0_cal_ku |-> "sig0_cal_ku", surf_type |-> "surf_type"]

\* angles are multiples of 60 or 90 degrees: twice the cosine
Cos2(p) == CASE p = 0 -> 2 [] p = 60000 -> 1 [] p = 90000 -> 0 [] p = 180000 -> -2 [] p = -60000 -> 1
\* gains are 0, 20, 40 dB: the factor of the amplitude
Amp(g) == CASE g = 0 -> 1 [] g = 20000 -> 10 [] g = 40000 -> 100
\* the range from the centre of gravity, of the window: half the window delay times c
Window(f, i) == Scalar(f, "range_ku", i) + (Cos2(Scalar(f, "pitch_sat_pointing", i)) * Scalar(f, "cog_cor", i)) \div 2
Echo(f, v, i) == [k \in 1 .. f.rows * Cols |-> Amp(Scalar(f, "agc_ku", i)) * Elem(f, v, i, k - 1)]

\* positions (metres) where they are on an axis of the ellipsoid; {} where not
Major == 6378137
Minor == 6356752
Place(lat, lon, alt) ==
  IF lat = 0 /\ lon = 0 THEN {<<Major + alt, 0, 0>>}
  ELSE IF lat = 0 /\ lon = 90000 THEN {<<0, Major + alt, 0>>}
  ELSE IF lat = 0 /\ lon = -90000 THEN {<<0, -(Major + alt), 0>>}
  ELSE IF lat = 0 /\ lon = 180000 THEN {<<-(Major + alt), 0, 0>>}
  ELSE IF lat = 90000 THEN {<<0, 0, Minor + alt>>}
  ELSE IF lat = -90000 THEN {<<0, 0, -(Minor + alt)>>} ELSE {}
Near(p, ps) == \A q \in ps : \A k \in 1 .. 3 : p[k] - q[k] \in -2 .. 2
Sat(f, i) == Place(f.lat[i + 1], f.lon[i + 1], Scalar(f, "alt", i) \div 1000)
Surface(f, i) == Place(f.lat[i + 1], f.lon[i + 1], (Scalar(f, "alt", i) - Window(f, i)) \div 1000)

\* region of interest: limits in 1/1000 degrees; {} if not given
Inside(f, roi, i) ==
  /\ \A x \in roi.minlat : f.lat[i + 1] >= x
  /\ \A x \in roi.maxlat : f.lat[i + 1] <= x
  /\ \A x \in roi.minlon : f.lon[i + 1] >= x
  /\ \A x \in roi.maxlon : f.lon[i + 1] <= x
Records(f, roi) == {i \in 0 .. f.n - 1 : Inside(f, roi, i)}
NoPlace(f, i) == f.lat[i + 1] = 0 /\ f.lon[i + 1] = 0
First(f, roi) == CHOOSE i \in Records(f, roi) : \A j \in Records(f, roi) : i <= j
Final(f, roi) == CHOOSE i \in Records(f, roi) : \A j \in Records(f, roi) : i >= j
\* the records an iteration visits: usable ones by number, others as -1
Visits(f, roi) == [k \in 1 .. Final(f, roi) - First(f, roi) + 1 |->
                   LET i == First(f, roi) + k - 1 IN IF i \in Records(f, roi) /\ ~NoPlace(f, i) THEN i ELSE -1]
=============================================================================
