"""Rewrites the C14 findings (labels like identifiers of the layouts) of known_findings.json, with new plans (run by hand)."""
import os,sys,json
sys.path[:0]=['/repo','/verif']; os.environ['VERIF_REPO']='/repo'
import warnings; warnings.simplefilter('ignore')
from sim import kernel
from multiprocessing.pool import ThreadPool
mod=kernel._import('C14')
want=['label footnotes','label doc_title','label toc-toggle','label IDXGROUP.X']
have={}
def one(i):
    plan=mod.gen(kernel.run_rng(77,'C14',i),'quick',i)
    r=kernel.run_forked(mod,plan,180)
    return plan,r
import concurrent.futures as cf
with cf.ProcessPoolExecutor(8) as ex:
    for plan,r in ex.map(one,range(900)):
        if r['status']=='violation':
            s=r.get('sig')
            if s in want and (s not in have or len(json.dumps(plan))<len(json.dumps(have[s]))): have[s]=plan
            elif s not in want: print('OTHER',r['cls'],r['msg'][:100])
print({k:len(json.dumps(v)) for k,v in have.items()})
def shr(s):
    plan=have[s]; known=[{'cls':'identifiers','sig':x} for x in want if x!=s]
    best,t=kernel.shrink(mod,plan,'identifiers',200,800,known=known)
    return s,best,kernel.run_forked(mod,best,180)
with cf.ProcessPoolExecutor(4) as ex:
    out=[]
    for s,b,r in ex.map(shr,list(have)):
        print(s,len(json.dumps(b)),r.get('sig'),r['msg'][:150].replace('\n',' '))
        out.append((s,b))
what = {'footnotes': 'the list of footnotes of a page', 'doc_title': 'the title of a page of the HTML5 default theme',
        'toc-toggle': 'the button for the contents of the HTML5 default theme', 'IDXGROUP.X': 'the heading of the X group of an index'}
kf = json.load(open('/verif/known_findings.json'))
kf['findings'] = [f for f in kf['findings'] if f['property'] != 'C14'] + [
    {'property': 'C14', 'cls': 'identifiers', 'sig': s, 'what': '\\label{%s} is the identifier of %s too' % (s[6:], what[s[6:]]), 'plan': b} for s, b in out]
json.dump(kf, open('/verif/known_findings.json', 'w'), indent=1)
