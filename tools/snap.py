import sys; sys.path.insert(0,'/repo/_build/site')
import numpy as np, booz_xform as bx, glob, hashlib
h=hashlib.sha256()
for f in sorted(glob.glob('/repo/tests/test_files/wout_*.nc')):
    for (mb,nb) in [(None,None),(7,0),(5,9),(1,1)]:
        b=bx.Booz_xform(); b.verbose=0; b.read_wout(f,True)
        if mb: b.mboz=mb;b.nboz=nb
        else: b.mboz=12;b.nboz=min(b.nboz,6)
        b.compute_surfs=[3,0,11]
        b.run()
        for k in 'bmnc_b rmnc_b zmns_b numns_b gmnc_b bmns_b rmns_b zmnc_b numnc_b gmns_b s_b Boozer_G Boozer_I Boozer_G_all Boozer_I_all xm_b xn_b phi chi pres phip'.split():
            h.update(np.ascontiguousarray(getattr(b,k)).tobytes())
print(h.hexdigest())
