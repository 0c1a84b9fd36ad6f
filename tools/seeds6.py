import runpy
B={}
for f in ('b7','b7b','b8','b8b'):
    try:
        for b in runpy.run_path('/tmp/try/%s.py'%f)['bugs']: B.setdefault(b['id'],b)
    except FileNotFoundError: pass
def r(i,p,needs,breaks): return dict(id=i,property=p,edits=B[i]['edits'],needs=needs,breaks=breaks,raw='/tmp/try/out/%s/replay.raw'%i)
seeds=[
r('fuji-len','C07','a RAF file with a metadata entry of 4092 bytes or more','the sensor size can no longer be found, so the file is rejected'),
r('f32-signed','C17','a rational with a numerator of 2^31 or more','the value comes out negative'),
r('chain10','C07','more than ten directories in the chain of a TIFF file','the directories after the tenth are not seen'),
r('mos-step','C17','a Leaf metadata block in which the neutral section starts at an odd place','the white balance is not found'),
r('inter-2048','C03','an interlaced ORF whose first field is a multiple of 2048 bytes long','the second field is read 2048 bytes too early'),
]
