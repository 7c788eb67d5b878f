#!/usr/bin/env python3
"""One-off: take the camera and matrix tables of the pinned tree as reference data
(data/cameras.tsv, data/matrices.tsv). The numbers come from the public C header."""
import re,sys
R='/repo/'
hdr=open(R+'include/libopenraw/cameraids.h').read()
ids=open(R+'src/camera_ids.rs').read()
cams={}
vend={n:int(v) for n,v in re.findall(r'pub const (\w+): u16 = (\d+)',ids.split('pub mod vendor')[1].split('\n}')[0])}
for mod,body in re.findall(r'pub mod (\w+) \{(.*?)\n\}',ids,re.S):
    for n,v in re.findall(r'pub const (\w+): u16 = (0x[0-9a-fA-F]+|\d+)',body):
        cams[(mod,n)]=int(v,0)
    for _ in range(3):
        for n,v in re.findall(r'pub const (\w+): u16 = ([A-Z]\w+)',body):
            if (mod,v) in cams: cams[(mod,n)]=cams[(mod,v)]
def strip(s): 
    s=re.sub(r'/\*.*?\*/','',s,flags=re.S)
    return re.sub(r'(?m)//.*$','',s)
mac={'canon':'canon','nikon':'nikon','sony':'sony','olympus':'olympus','panasonic':'panasonic','pentax':'pentax','ricoh':'ricoh','minolta':'minolta','epson':'epson','fuji':'fujifilm','leica':'leica'}
out=[];mats=[];nums=[]
for fmt,files in {'canon':['canon.rs','canon/matrices.rs'],'nikon':['nikon.rs','nikon/matrices.rs'],'sony':['sony.rs'],'olympus':['olympus.rs','olympus/matrices.rs'],'panasonic':['panasonic.rs'],'pentax':['pentax.rs'],'minolta':['minolta.rs'],'epson':['epson.rs'],'fujifilm':['fujifilm.rs','fujifilm/matrices.rs'],'dng':['dng.rs']}.items():
    for f in files:
        s=strip(open(R+'src/'+f).read())
        def tid(v,n): return vend[v.upper()]<<16|cams[(v,n)]
        for m,name,idn in re.findall(r'(\w+)!\s*\(\s*"([^"]*)"\s*,\s*(\w+)\s*,?\s*\)',s):
            if m in mac: out.append((fmt,name,tid(mac[m],idn)))
        for name,v,mo,idn in re.findall(r'\(\s*"([^"]*)"\s*,\s*TypeId\(\s*vendor::(\w+)\s*,\s*(\w+)::(\w+)\s*\)\s*\)',s):
            out.append((fmt,name,vend[v]<<16|cams[(mo,idn)]))
        for num,m,idn in re.findall(r'\(\s*(0x[0-9a-fA-F]+|\d+)\s*,\s*(\w+)!\s*\(\s*(\w+)\s*\)\s*\)',s):
            if m in mac: nums.append((fmt,num,tid(mac[m],idn)))
        for m,num,idn in re.findall(r'(\w+)!\s*\(\s*(0x[0-9a-fA-F]+|\d+)\s*,\s*(\w+)\s*,?\s*\)',s):
            if m in mac: nums.append((fmt,num,tid(mac[m],idn)))
        for m,idn,b,w,mx in re.findall(r'BuiltinMatrix::new\(\s*(\w+)!\s*\(\s*(\w+)\s*\)\s*,\s*(\w+)\s*,\s*(\w+)\s*,\s*\[([^\]]*)\]',s):
            mats.append((fmt,tid(mac[m],idn),int(b,0),int(w,0),' '.join(mx.replace(',',' ').split())))
        for v,mo,idn,b,w,mx in re.findall(r'BuiltinMatrix::new\(\s*TypeId\(\s*vendor::(\w+)\s*,\s*(\w+)::(\w+)\s*,?\s*\)\s*,\s*(\w+)\s*,\s*(\w+)\s*,\s*\[([^\]]*)\]',s):
            mats.append((fmt,vend[v]<<16|cams[(mo,idn)],int(b,0),int(w,0),' '.join(mx.replace(',',' ').split())))
D='/verif/data/'
open(D+'cameras.tsv','w').write(''.join(f'{a}\t{b}\t{c:08x}\n' for a,b,c in out))
open(D+'models.tsv','w').write(''.join(f'{a}\t{int(b,0):x}\t{c:08x}\n' for a,b,c in nums))
open(D+'matrices.tsv','w').write(''.join(f'{a}\t{b:08x}\t{c}\t{d}\t{e}\n' for a,b,c,d,e in mats))
# header vs rs ids
h=dict(re.findall(r'OR_TYPEID_(\w+) = (0x[0-9a-fA-F]+|\d+)',hdr))
bad=[(k,v,h.get(f'{k[0].upper()}_{k[1]}')) for k,v in cams.items() if f'{k[0].upper()}_{k[1]}' in h and int(h[f'{k[0].upper()}_{k[1]}'],0)!=v]
miss=[k for k in cams if f'{k[0].upper()}_{k[1]}' not in h]
print(len(out),len(nums),len(mats),'mismatch',bad[:10],'missing',len(miss),miss[:8])
# tag names (from ExifTool)
s=open(R+'src/tiff/exif/generated.rs').read()
p=s.index('GPSINFO_TAG_NAMES')
open(D+'tags.tsv','w').write(''.join(f'{ns}\t{int(n,0):04x}\t{name}\n' for ns,t in (('exif',s[:p]),('gps',s[p:])) for n,name in re.findall(r'\(\s*(0x[0-9a-f]+|\d+)\s*,\s*"([^"]*)"\s*\)',t)))
