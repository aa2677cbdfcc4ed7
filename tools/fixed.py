import subprocess, json
ids={ 'from_symbol_array/from_bit_array keep':'C01','estimate_snr':'C22','det_symbol':'C03','method sgncma':'C13','make_prbs_intXOR':'C06','PRBSBits':'C06','SymbolOnlySignal applies':'C03','adjust_data_length':'C05','sync_rx2tx/sync':'C05','find_offset':'C05','get_data':'C09','SignalWithPilots.cal_gmi':'C21','SignalWithPilots.from_symbol_array does':'C09','SignalWithPilots.from_symbol_array uses':'C09','TDHQAMSymbols.from':'C10','TDHQAMSymbols keeps':'C10','cal_ber_nosyncd':'C05','linspacestep':'C23','rolling_window':'C23','convert_iqtosinglebitstream':'C23','synchronisation rotates':'C05','add_dispersion':'C18','simulate_transmission':'C18','quantize_signal does':'C11','quantize_signal_New':'C18','apply_DAC_filter':'C18','apply_PMD':'C18','pre_filter_wdm':'C19','gauss and exp':'C19','spectral rrcos':'C19','rrcos_pulseshaping':'C19','comp_IQ':'C11','comp_rf_delay':'C28'}
ids.update({'bps considers':'C15','bps and TDHQAM':'C07','phase_partition_16qam':'C15','viterbiviterbi returns':'C15','pilot_based_cpe_new':'C16','shift_signal':'C17','correct_shifts':'C11','equalize_pilot_sequence':'C17','pilot_equaliser trains':'C17','pilot_equaliser returns':'C17','apply_filter does not':'C11','equalise_signal does not overwrite':'C11','dual_mode_equalisation':'C13','CDcomp':'C27','sync2frame':'C17','equalise_signal does not train':'C13','mrde':'C13','SignalWithPilots with several':'C09','SignalWithPilots.from_symbol_array trunc':'C09'})
ids.update({'modulator_response':'C18','rescale_signal':'C20','normalise_and_center_pil':'C20','find_pilot_idx':'C20','segment_axis':'C23','rcos_time':'C19','pre_filter rejects':'C19','generate_ps':'C25','sim_mi_mc':'C11','the oversampling':'C07','orthonormalize':'C28'})
ids.update({'analogue filters':'C19','rrcos_resample filters':'C19','soft L-values':'C21','min-max':'C21','cal_mi ':'C21','cal_lut':'C24','dump_edges':'C20','comp_mod_sin':'C24'})
ids.update({'processing imports':'C30','PPWorker receives':'C30','workers report':'C30','ResultSink':'C30','ErrorFctRDE':'C31','SignalWithPilots.from_symbol_array mult':'C09','pilot_based_cpe averages':'C16','add_carrier_offset':'C18'})
ids.update({'partition_16qam':'C15','phase_partition_16qam takes':'C15','dual_mode_equalisation applies':'C13'})
ids.update({'pilot_based_cpe uses':'C16','make_decision and cal_mi':'C11','est_snr and cal_gmi':'C11','bps and bps_twostage':'C11','apply_filter accepts':'C11'})
out=subprocess.run(['git','-C','/repo','log','--reverse','--format=%h %s','58e15a2..HEAD'],capture_output=True,text=True).stdout
p='/verif/known_findings.json'
try: d=json.load(open(p))
except Exception: d={"findings":[],"fixed":[]}
d['fixed']=[]
for l in out.splitlines():
    h,_,s=l.partition(' '); s=s[5:]
    c=[v for k,v in ids.items() if s.startswith(k)]
    if not c:
        print("no id",s); c=['C??']
    d['fixed'].append("fixed: property=%s %s %s"%(c[0],h,s))
json.dump(d,open(p,'w'),indent=1)
