#!/usr/bin/env python3
"""Cross-checks the harness' reference primitives against independent implementations
(hashlib, big-integer Python, the openssl CLI's raw ciphers)."""
import subprocess, hashlib, hmac, sys
H=bytes.fromhex
out=subprocess.run([sys.argv[1]],capture_output=True,text=True,check=True).stdout.split('\n')
n=0
def ossl(args,data): return subprocess.run(['openssl','enc']+args,input=data,capture_output=True,check=True).stdout
def aes_ecb(k,b): return ossl(['-aes-%d-ecb'%(len(k)*8),'-K',k.hex(),'-nopad'],b)
def gf(x,y):
    z=0;v=y
    for i in range(127,-1,-1):
        if x>>i&1: z^=v
        v=(v>>1)^(0xe1<<120) if v&1 else v>>1
    return z
def pad16(b): return b+bytes(-len(b)%16)
def gcm(k,iv,a,pt):
    nb=(len(pt)+15)//16
    ctrs=b''.join(iv+(i+2).to_bytes(4,'big') for i in range(nb))
    ks=aes_ecb(k,ctrs) if nb else b''
    ct=bytes(x^y for x,y in zip(pt,ks))
    h=int.from_bytes(aes_ecb(k,bytes(16)),'big')
    d=pad16(a)+pad16(ct)+(len(a)*8).to_bytes(8,'big')+(len(ct)*8).to_bytes(8,'big')
    x=0
    for i in range(0,len(d),16): x=gf(x^int.from_bytes(d[i:i+16],'big'),h)
    t=x^int.from_bytes(aes_ecb(k,iv+b'\0\0\0\1'),'big')
    return ct,t.to_bytes(16,'big')
def cc(k,iv,a,pt):
    st=lambda c,d: ossl(['-chacha20','-K',k.hex(),'-iv',c.to_bytes(4,'little').hex()+iv.hex()],d)
    ct=st(1,pt); pk=st(0,bytes(32))
    r=int.from_bytes(pk[:16],'little')&0x0ffffffc0ffffffc0ffffffc0fffffff; s=int.from_bytes(pk[16:],'little')
    d=pad16(a)+pad16(ct)+len(a).to_bytes(8,'little')+len(ct).to_bytes(8,'little')
    acc=0
    for i in range(0,len(d),16): acc=(acc+int.from_bytes(d[i:i+16]+b'\1','little'))*r%((1<<130)-5)
    return ct,((acc+s)&((1<<128)-1)).to_bytes(16,'little')
P=2**255-19
def x25519(k,u):
    k=bytearray(k);k[0]&=248;k[31]&=127;k[31]|=64;k=int.from_bytes(k,'little');u=int.from_bytes(u,'little')&((1<<255)-1)
    x1,x2,z2,x3,z3,sw=u,1,0,u,1,0
    for t in range(254,-1,-1):
        b=k>>t&1;sw^=b
        if sw:x2,x3,z2,z3=x3,x2,z3,z2
        sw=b
        A=x2+z2;AA=A*A;B=x2-z2;BB=B*B;E=AA-BB;C=x3+z3;D=x3-z3;DA=D*A;CB=C*B
        x3=(DA+CB)**2%P;z3=x1*(DA-CB)**2%P;x2=AA*BB%P;z2=E*(AA+121665*E)%P
    if sw:x2,x3,z2,z3=x3,x2,z3,z2
    return (x2*pow(z2,P-2,P)%P).to_bytes(32,'little')
p=0xffffffff00000001000000000000000000000000ffffffffffffffffffffffff;a=p-3
N=0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551
G=(0x6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296,0x4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5)
def add(A,B):
    if A is None:return B
    if B is None:return A
    if A[0]==B[0]:
        if (A[1]+B[1])%p==0:return None
        l=(3*A[0]**2+a)*pow(2*A[1],-1,p)%p
    else:l=(B[1]-A[1])*pow(B[0]-A[0],-1,p)%p
    x=(l*l-A[0]-B[0])%p;return x,(l*(A[0]-x)-A[1])%p
def mul(k,A):
    R=None
    while k:
        if k&1:R=add(R,A)
        A=add(A,A);k>>=1
    return R
last=None
for l in out:
    f=l.split(' ')
    if f[0] in('sha256','sha384'): assert hashlib.new(f[0],H(f[1])).hexdigest()==f[2]
    elif f[0][:4]=='hmac': assert hmac.new(H(f[1]),H(f[2]),'sha'+f[0][4:]).hexdigest()==f[3]
    elif f[0]=='x25519': assert x25519(H(f[1]),H(f[2])).hex()==f[3]
    elif f[0][:4]=='aead':
        r=(cc if f[0]=='aead1303' else gcm)(*map(H,f[1:5])); assert (r[0].hex(),r[1].hex())==(f[5],f[6]),f
    elif f[0]=='ecdsa':
        q=mul(int(f[1],16),G); assert q==(int(f[2],16),int(f[3],16)); last=(q,H(f[4]))
    elif f[0]=='ecdsasig':
        d=H(f[1]); rl=d[3]; r=int.from_bytes(d[4:4+rl],'big'); s=int.from_bytes(d[6+rl:],'big')
        z=int.from_bytes(hashlib.sha256(last[1]).digest(),'big');w=pow(s,-1,N)
        assert add(mul(z*w%N,G),mul(r*w%N,last[0]))[0]%N==r
    elif f[0]=='hkdf':
        prk,info,L=H(f[1]),H(f[2]),int(f[3]);o=b'';t=b'';i=0
        while len(o)<L: i+=1;t=hmac.new(prk,t+info+bytes([i]),'sha256').digest();o+=t
        assert o[:L].hex()==f[4]
    else: continue
    n+=1
print('selftest ok,',n,'vectors')
