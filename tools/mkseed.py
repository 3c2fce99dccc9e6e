import os,subprocess,json,sys
V='/verif/seeded'
DEMO='''#!/bin/bash
# builds demo.c against the libraries built in /repo/_build/src and runs it
set -e
here=$(cd "$(dirname "$0")" && pwd)
S=$PWD/_build/src
T=$(mktemp -d)
trap 'rm -rf -- "$T"' EXIT
I="-I$S/apron -I$S/num -I$S/itv -I$S/box -I$S/octagons -I$S/newpolka -I$S/ppl -I$S/products -I$S/taylor1plus -I$S/avoct -I$S/fppol"
%s -O1 -g -w $I -o "$T/demo" "$here/%s" %s -lmpfr -lgmp -lm %s
LD_LIBRARY_PATH=$(ls -d $S/*/ | tr '\\n' ':') timeout 120 "$T/demo" "$T"
'''
PRE='''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "ap_global0.h"
#include "ap_global1.h"
static ap_linexpr0_t* lin(int n, const int* c, int k){ ap_linexpr0_t* e=ap_linexpr0_alloc(AP_LINEXPR_DENSE,n); for(int i=0;i<n;i++) ap_linexpr0_set_coeff_scalar_int(e,i,c[i]); ap_linexpr0_set_cst_scalar_int(e,k); return e; }
static ap_abstract0_t* meet(ap_manager_t* m, ap_abstract0_t* a, int n, const int* c, int k, int t){ ap_lincons0_array_t s=ap_lincons0_array_make(1); s.p[0]=ap_lincons0_make(t,lin(n,c,k),NULL); ap_abstract0_t* r=ap_abstract0_meet_lincons_array(m,true,a,&s); ap_lincons0_array_clear(&s); return r; }
#define M(a,t,k,...) do{ int c_[]={__VA_ARGS__}; a=meet(m,a,sizeof c_/sizeof *c_,c_,k,t); }while(0)
#define CHECK(x) do{ if(!(x)){ printf("FAIL %s:%d %s\\n",__FILE__,__LINE__,#x); return 1; } }while(0)
'''
def libdirs(libs): return ' '.join('-L$S/%s -l%s'%(d,l) for d,l in libs)
WHERE={'boxMPQ':'box','boxD':'box','boxMPFR':'box','octMPQ':'octagons','octD':'octagons','polkaMPQ':'newpolka','polkaRll':'newpolka','ap_ppl':'ppl','ap_pkgrid':'products','t1pD':'taylor1plus','avoD':'avoct','avoMPQ':'avoct','fppD':'fppol','apron':'apron','apronxx':'apronxx'}
def seed(id,prop,edits,code,libs,needs,breaks,cxx=False,extra='',pre=True,demo=None,files=None):
    """edits: list of (file, old, new)"""
    d=os.path.join(V,id); os.makedirs(d,exist_ok=True)
    assert not subprocess.check_output(['git','-C','/repo','status','--porcelain']).strip()
    for f,a,b in edits:
        p='/repo/'+f; s=open(p,encoding='latin-1').read(); assert s.count(a)==1,(id,f,s.count(a)); open(p,'w',encoding='latin-1').write(s.replace(a,b))
    diff=subprocess.check_output(['git','-C','/repo','diff']); subprocess.check_call(['git','-C','/repo','checkout','-q','--','.'])
    open(d+'/patch.diff','wb').write(diff)
    if demo is None:
        fn='demo.cc' if cxx else 'demo.c'
        open(d+'/'+fn,'w').write((PRE if pre else '')+code)
        demo=DEMO%('g++' if cxx else 'gcc -std=gnu99',fn,' '.join('-L$S/%s -l%s'%(WHERE[l],l) for l in libs+['apron']),extra)
    open(d+'/demo.sh','w').write(demo); os.chmod(d+'/demo.sh',0o755)
    for k,v in (files or {}).items(): open(d+'/'+k,'w').write(v)
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(d+'/meta.json','w'),indent=1)
