import json,sys
for p in sys.argv[1:]:
    d=json.load(open('/verif/evidence/%s.json'%p))
    c=d['coverage']
    print(p,d['tier'],'wall %.0f'%d['wall_s'],'complete',c['complete_within_bounds'],'validated',c['traces_validated_against_impl'],'unconf',c['unconfirmed_candidates'],'mism',len(c.get('translator_mismatches',[])), 'viol',d['violations'])
    for u in c['units']: print('  ',u['unit'],u.get('paths'),u.get('paths_ending_in_assume'),u.get('complete_within_bounds'),round(u.get('wall_s',0),1),u.get('reached'),u.get('reduced_because') or '')
