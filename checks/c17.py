"""C17: product files: names, one L1BS record for each L1B record, header"""
import chaincases as cc
from checks import chaincheck as ck

FILES = ['L1A_a.nc', 'L1A.nc', 'L1A_01_b.nc', 'x.nc', 'S3A_SR_1_SRA_A__20160101T0.nc', 'L1AL1A.nc', 'a.b.nc', 'L1Ax.NC',
         'l1a_low.nc', 'L1A_ sp.nc', 'xL1A_.nc', 'L1A_noext']
NAMES = ['x', 'default', 'my conf', 'a.b', 'L1A']


def run(ctx):
    ck.model(ctx)
    rng = ctx.rng
    plans = []
    for i in range(ctx.n(24, 160)):
        p = cc.Plan(ctx)
        fmt = ck.FORMATS[i % 2]
        p.processor('k', name=rng.choice(NAMES), skip=(i // 2) % 3 == 2, cnf=ck.conf(rng, output_format_flag_cnf=fmt))
        for f in rng.sample(FILES, rng.randint(1, 3)):
            b = ck.bursts(rng, 'gaps')
            g = {k: '%s %d' % (k, rng.randint(0, 99)) for k in rng.sample(
                ['mission_name', 'altimeter_sensor_name', 'gnss_sensor_name', 'doris_sensor_name', 'references', 'acq_station_name',
                 'xref_altimeter_level0', 'xref_navatt_level0', 'xref_altimeter_orbit', 'xref_doris_uso',
                 'xref_altimeter_ltm_lrm_cal1', 'xref_altimeter_ltm_sar_cal1', 'xref_altimeter_ltm_ku_cal2',
                 'xref_altimeter_ltm_c_cal2', 'xref_altimeter_characterisation', 'xref_time_correlation', 'xref_platform',
                 'history'], 8)}
            p.run('k', b, file=f, globals_=g, want=('refusal', 'count', 'names', 'globals', 'align', 'place'))
        plans.append(p)
    ck.judge(ctx, plans)
