"""small concrete uses of the library functions pyvc has assumed contracts for"""
import numpy as np, math, itertools, functools, operator
import scipy.signal
def base(): return np.arange(12.).reshape(3,4)
def f1(): return np.roll(base(), 2, axis=1)
def f2(): return np.roll(base(), -5, axis=0)
def f3(): return np.roll(np.arange(7), 3)
def f4(): return np.fft.fftshift(base())
def f5(): return np.fft.ifftshift(np.arange(7))
def f6(): return np.fft.fftfreq(7, .5)
def f7(): return np.fft.fftfreq(8, d=.25)
def f8(): return np.fft.rfftfreq(7, .5)
def f9(): return np.repeat(base(), 3, axis=0)
def f10(): return np.repeat(base(), 2)
def f11(): return np.take(base(), [2,0], axis=1)
def f12(): return np.sign(base()-5)
def f13(): return np.average(base(), axis=1, weights=np.array([1.,2.,3.,5.]))
def f14(): return np.average(base(), weights=base()+1, axis=0)
def f15(): return np.column_stack([np.arange(3.), base()])
def f16(): return np.array_split(np.arange(10), 4)[1]
def f17(): return np.split(base(), 2, axis=1)[1]
def f18(): return np.split(np.arange(9), [2,5])[1]
def f19(): return np.diagonal(base()[:,:3])
def f20():
    a=base(); a.fill(3.); return a
def f21(): return functools.reduce(operator.mul, [2,3,4])
def f22(): return np.hamming(5)
def f23(): return scipy.signal.windows.hann(6)
def f24(): return np.round(base()*.5)
def f25(): return np.rint(base()*.5-3)
def f26(): return np.trunc(base()*.5-3)
def f27(): return np.logical_and(base()>2, base()<7)
def f28(): return np.full_like(base(), 2)
def f29(): return np.atleast_2d(np.arange(3))
def f30(): return np.hypot(base(), 2*base())
def f31(): return round(2.5)+round(3.5)+round(-.5)
def f32(): return [i*j for i,j in itertools.product([1,2],[3,4])]
def f33(): return np.roll(base(), 1, axis=0)[::-1]
def f34(): return np.any(np.array([1,2,3])>2)
def f35(): return base().clip(2,5)
def f36(): return np.blackman(7)
def f37():
    a=base(); np.copyto(a, 1+base()); return a
def f38(): return np.fft.ifft(base(), axis=1).real
def f39(): return np.repeat(base().reshape(2,6),2,axis=1).reshape(3,8)

def cplx(): return base() + 1j*np.cos(base())
def third(): return np.arange(24.).reshape(2,3,4)
def f40(): return base().T
def f41(): return third().T
def f42(): return third().transpose(1,0,2)
def f43(): return np.transpose(third(), (2,0,1))
def f44(): return np.moveaxis(third(), 0, -1)
def f45(): return np.swapaxes(third(), 0, 2)
def f46(): return np.moveaxis(third(), -1, 0).reshape(4,6)
def f47(): return third().reshape(6,4)
def f48(): return third().reshape(2,12)
def f49(): return third().reshape(-1)
def f50(): return third().reshape(4,-1)
def f51(): return np.reshape(third(), (3,8))
def f52(): return third().ravel()
def f53(): return third().flatten()
def f54(): return third().T.reshape(4,6)
def f55(): return third()[:,1:,::2]
def f56(): return third()[...,-1]
def f57(): return third()[1]
def f58(): return third()[:,None,1]
def f59(): return third()[:, [2,0]]
def f60(): return third()[:, np.array([1,1,2])]
def f61(): return base()[1:,::-1]
def f62(): return base()[-2:]
def f63(): return base()[:-1,1:3]
def f64(): return base()[::2]
def f65(): return np.arange(10)[3:8:2]
def f66(): return np.arange(10)[::-3]
def f67(): return np.arange(10)[7:2:-2]
def f68(): return base() @ base().T
def f69(): return base() @ np.arange(4.)
def f70(): return third() @ base().T
def f71(): return np.dot(base(), base().T)
def f72(): return np.matmul(base(), base().T)
def f73(): return np.einsum('ij,kj->ik', base(), base())
def f74(): return np.einsum('ij,ij->i', base(), base())
def f75(): return np.einsum('ijk,kj->i', third(), base().T)
def f76(): return np.tensordot(third(), base(), axes=([1,2],[0,1]))
def f77(): return np.tensordot(third(), base().T, axes=([2],[0]))
def f78(): return np.outer(np.arange(3), np.arange(4))
def f79(): return np.vdot(cplx(), cplx())
def f80(): return np.inner(np.arange(3.), np.arange(3.))
def f81(): return np.linalg.norm(base())
def f82(): return base().sum()
def f83(): return third().sum(axis=1)
def f84(): return third().sum(axis=(0,2))
def f85(): return np.sum(third(), axis=-1, keepdims=True)
def f86(): return third().mean(axis=0)
def f87(): return np.mean(base())
def f88(): return np.nanmean(base(), axis=1)
def f89(): return np.var(base(), axis=0)
def f90(): return np.var(base(), axis=0, ddof=1)
def f91(): return np.std(base())
def f92(): return np.nanvar(third(), axis=0)
def f93(): return np.var(cplx(), axis=1)
def f94(): return np.prod(np.array([2,3,4]))
def f95(): return np.cumsum(np.arange(5))
def f96(): return np.diff(np.array([1.,4.,9.]))
def f97(): return base().max()
def f98(): return base().min(axis=1)
def f99(): return np.amax(base(), axis=0)
def f100(): return np.maximum(base(), 5)
def f101(): return np.minimum(base(), base().T[0][:3][:,None])
def f102(): return np.argmin(np.abs(np.arange(5)-2.2))
def f103(): return np.argmax(np.array([1.,7.,3.]))
def f104(): return np.abs(cplx())
def f105(): return np.abs(base()-4)
def f106(): return np.conj(cplx())
def f107(): return cplx().conj().T
def f108(): return cplx().real
def f109(): return np.imag(cplx())
def f110(): return np.real(cplx())
def f111(): return cplx()*1j
def f112(): return cplx()/2
def f113(): return 1/(1+base())
def f114(): return base()**2
def f115(): return base()//5
def f116(): return base()%5
def f117(): return np.mod(base(),4)
def f118(): return np.sqrt(base())
def f119(): return np.square(base())
def f120(): return np.exp(1j*base())
def f121(): return np.cos(base())
def f122(): return np.floor(base()/3)
def f123(): return np.ceil(base()/3)
def f124(): return -base()
def f125(): return np.negative(base())
def f126(): return np.where(base()>4, base(), -1)
def f127(): return np.where(base()>4, 1, 0)
def f128(): return np.concatenate([base(), base()+1])
def f129(): return np.concatenate((base(), base()[:, :2]), axis=1)
def f130(): return np.hstack([base(), base()])
def f131(): return np.vstack([base(), base()[:1]])
def f132(): return np.stack([base(), base()+2])
def f133(): return np.stack([base(), base()+2], axis=-1)
def f134(): return np.stack([base(), base()+2], 1)
def f135(): return np.append(np.arange(3), 7)
def f136(): return np.append(base(), base(), axis=0)
def f137(): return np.append(base(), 3.)
def f138(): return np.tile(np.arange(3), 2)
def f139(): return np.tile(base(), (2,1))
def f140(): return np.tile(np.arange(3), (2,2))
def f141(): return np.expand_dims(base(), 1)
def f142(): return np.squeeze(base()[None])
def f143(): return base()[None,...,None].squeeze()
def f144(): return np.broadcast_to(np.arange(4.), (3,4))
def f145(): return np.flip(base())
def f146(): return np.flip(base(), axis=1)
def f147(): return np.flipud(base())
def f148(): return np.fliplr(base())
def f149(): return base()[::-1,::-1]
def f150(): return np.diag(np.arange(3.))
def f151(): return np.diag(base()[:,:3])
def f152(): return np.trace(base()[:,:3])
def f153(): return np.eye(3)
def f154(): return np.identity(2)
def f155(): return np.zeros((2,3))
def f156(): return np.ones(3)
def f157(): return np.full((2,2), 7)
def f158(): return np.zeros_like(base())
def f159(): return np.ones_like(base())
def f160(): return np.arange(2, 11, 3)
def f161(): return np.arange(5)
def f162(): return np.linspace(0, 1, 5)
def f163(): return np.linspace(0, 1, 5, endpoint=False)
def f164(): return np.meshgrid(np.arange(3), np.arange(2))[0]
def f165(): return np.meshgrid(np.arange(3), np.arange(2), indexing='ij')[1]
def f166(): return np.fft.fft(base(), axis=0)
def f167(): return np.fft.fft(base())
def f168(): return np.fft.rfft(base(), axis=1)
def f169(): return np.fft.fft(cplx(), axis=-1)
def f170(): return np.clip(base(), 2, 7)
def f171(): return np.unravel_index(7, (3,4))[0]
def f172(): return np.unravel_index(7, (3,4))[1]
def f173(): return np.add(base(), 1)
def f174(): return np.multiply(base(), base())
def f175(): return np.subtract(base(), 2)
def f176(): return np.divide(base(), 2)
def f177(): return np.power(base(), 2)
def f178(): return base().astype(int)
def f179(): return (base()/2).astype(int)
def f180(): return base().astype(complex)
def f181(): return np.array([[1,2],[3,4]])
def f182(): return np.array([base(), base()])
def f183(): return np.asarray([1.,2.])
def f184(): return base().size + base().ndim + len(base())
def f185(): return base().shape[1]
def f186(): return np.size(base())
def f187(): return np.ndim(base())
def f188(): return np.shape(base())[0]
def f189(): return max(3, 5) + min(2, 1)
def f190(): return sum([1,2,3])
def f191(): return 7//2 + 7%3 + (-7)//2 + (-7)%3
def f192(): return divmod(17,5)[1]
def f193(): return abs(-3)
def f194(): return int(3.7) + int(-3.7)
def f195(): return float(3)
def f196(): return [i**2 for i in range(4)]
def f197(): return sorted([3,1,2])
def f198(): return sorted([3,1,2], reverse=True)
def f199(): return list(reversed([1,2,3]))
def f200(): return [a*b for a,b in zip([1,2],[3,4])]
def f201(): return [i*v for i,v in enumerate([5,6,7])]
def f202(): return math.ceil(7/2) + math.floor(7/2)
def f203(): return len({'a':1,'b':2})
def f204(): return list({'a':1,'b':2}.values())
def f205(): return base()[[0,1],[2,3]]
def f206(): return base()[np.arange(3), np.arange(3)]
def f207(): return base()[1][2]
def f208(): return np.atleast_1d(3.)
def f209(): return np.cumsum([1,2,3])
def f210(): return third()[0].T[1:3].T
def f211():
    a=base()
    a[1:]=0
    return a
def f212():
    a=base()
    b=a[1:]
    b*=2
    return a
def f213():
    a=base()
    a[:,1]+=5
    return a
def f214():
    a=base()
    b=a.T
    b[0]=7
    return a
def f215():
    a=base()
    b=a.reshape(2,6)
    b[1]=-1
    return a
def f216():
    a=base()
    b=a.copy()
    b[0]=9
    return a
def f217():
    a=base()
    a[0],a[1]=a[1].copy(),a[0].copy()
    return a
def f218():
    a=base()
    a-=a[0]
    return a
def f219():
    a=base()
    a[...]=a[::-1]
    return a
def f220():
    a=third()
    a[:,1,:]=a[:,0,:]
    return a
def f221():
    a=base()
    a.shape=(4,3)
    return a
def f222():
    a=base().T
    b=a.reshape(3,4)
    b[0]=5
    return a
def f223():
    a=np.zeros((2,2),dtype=complex)
    a[0]=1j
    return a
def f224():
    a=np.zeros(4)
    for i in range(4): a[i]=i*i
    return a
def f225():
    a=base()
    a[[0,2]]=1
    return a
def f226():
    a=base()
    a[1,[0,3]]+=2
    return a
def f227():
    a=base()
    a[a>5]=0
    return a
def f228():
    a=base()
    b=a.ravel()
    b[3]=100
    return a
def f229():
    a=base()
    b=a.flatten()
    b[3]=100
    return a
def f230():
    a=base()
    b=np.asarray(a)
    b[0]=3
    return a
def f231():
    a=base()
    b=np.array(a)
    b[0]=3
    return a
def f232():
    a=base()
    b=a[None]
    b[0,0]=8
    return a
def f233():
    a=base()
    b=np.squeeze(a[None])
    b[0]=8
    return a
def f234():
    a=base()
    b=a[[0,1]]
    b[:]=8
    return a
def f235():
    a=base()
    b=np.swapaxes(a,0,1)
    b[1]=8
    return a
def f236():
    a=base()
    b=a.astype(float)
    b[1]=8
    return a
def f237():
    a=base()
    b=a.astype(float, copy=False)
    b[1]=8
    return a
def f238():
    a=base()
    a/=2
    a**=2
    return a
def f239():
    a=np.arange(4)
    a[1:]=a[:-1]
    return a
def f240():
    a=np.arange(4.)
    a[1:]+=a[:-1]
    return a
def f241():
    s=0
    for i in range(5):
        if i==1: continue
        if i==4: break
        s+=i
    return s
def f242():
    i=0
    while i<7: i+=2
    return i
def f243():
    d={}
    for i in range(3): d[i]=i*2
    del d[1]
    return sum(d.values())
def f244():
    l=[1,2,3]
    l.append(4)
    l.insert(0,9)
    l.pop()
    l+= [5]
    return l
def f245():
    x=[1,2,3]
    y=x
    y[0]=5
    return x
def f246():
    a,*b=[1,2,3]
    return b
def f247():
    try: [1][3]
    except IndexError: return 4
    return 5
def f248():
    f=lambda x,y=2: x*y; return f(3)+f(3,y=4)
def f249():
    return [c for c in [1,2,3,4] if c%2]
def f250():
    a=base()
    np.multiply(a, 2, out=a)
    return a
def f251():
    a=base()
    np.subtract(a, 1, out=a[:])
    return a
def f252():
    a=base()
    c=np.empty_like(a)
    c[:]=a*2
    return c
def f253():
    a=base()
    a=a.T
    a[0]=0
    return a
def f254():
    a=third()
    b=a[0]
    b=b-1
    b[0]=7
    return a
def f255():
    a=third()
    b=a[:,0]
    b-=1
    return a
def f256():
    a=base()
    b=np.reshape(a,(3,2,2))
    b[:,1]=0
    return a
def f257():
    a=third()
    b=a.reshape(6,4).T
    b[2]=0
    return a
def f258():
    a=third()
    b=np.moveaxis(a,1,0)
    b[0]=0
    return a
def f259():
    x=(1,2)
    a,b=x
    return a-b
def f260():
    return 3 if not [] else 4
def f261():
    return 1 < 2 <= 2
def f262():
    a=np.arange(3)
    return a[-1]+a[-3]
def f263():
    s='ab'
    return len(s+'c'*3)
def f264():
    a=base()
    return a.min()+a.max()+a.mean()
def f265():
    a=base()
    m=a.mean(axis=0, keepdims=True)
    return a-m
def f266():
    a=base()
    a[:] = 3
    return a
def f267():
    a=base()
    a[1:,1:] = base()[:2,:3]
    return a
def f268():
    a = np.zeros((3,4))
    a[:, 1:3] = np.arange(2)
    return a
def f269():
    a = np.zeros((3,4))
    a[..., 0] = [1,2,3]
    return a
def f270(): return np.array([1.7, -1.7, 3.], dtype=int)
def f271(): return np.asarray([1.7, -1.7, 3.], dtype=np.arange(3).dtype)
def f272(): return np.array([[1.5, 2.5], [-3.5, 4.]], dtype='int64')
def f273(): return np.full((2, 2), 1.9, dtype=int)
def f274(): return np.full_like(np.arange(3), -1.9)
def f275(): return np.sum(np.array([1.7, 2.7]), dtype=int)
def f276(): return np.array(2.9, dtype=int)
def f277():
    a = np.zeros(3, dtype=int); a[:] = [1.7, -2.7, .5]; return a
def f278(): return np.array([np.array([1.7, 2.2]), np.array([-.7, 2.2])], dtype=int)
def f279(): return np.stack([np.array([1, 2]), np.array([-.7, 2.2])])
def f280(): return np.concatenate([np.array([1, 2]), np.array([-.7, 2.2])])
def f281(): return np.array([1, 2])*np.array([-.7, 2.2]).astype(int)
def f282(): return np.array([True, False, True])*2
def f283(): return np.sum(np.array([True, False, True]))
def f284(): return np.mean(np.array([True, False, True]))
def f285(): return np.arange(5).astype(float)/2
def f286(): return np.arange(5)//2
def f287(): return np.array([-3, 3])//2
def f288(): return np.array([-3, 3]) % 2
def f289(): return np.array([-3.5, 3.5])//2
def f290():
    a = np.zeros(3, dtype=int); a += 1; return a
def f291():
    a = np.arange(3); a[1] = 2.9; return a
def f292(): return int(-2.7) + int(2.7)
def f293(): return np.int64(-2.7) + np.floor(-2.7) + np.ceil(-2.7)
def f294(): return len('a'*3) + len('ab' + 'c'*2)
def f295(): return sorted([3, 1, 2], reverse=True)
def f296(): return sorted([3, 1, 2], key=lambda v: -v)
def f297():
    L = [3, 1, 2]; L.sort(reverse=True); return L
def f298(): return [len('{:03d}'.format(7)), len(f'{7:05d}')]
def f299(): return np.array([1 + 2j, 3]).real.astype(int)
def f300(): return third()[[0, 1], :, 1]
def f301(): return third()[0, :, [0, 1]]
def f302(): return third()[:, 0, [0, 1]]
def f303(): return third()[:, [0, 1], 0]
def f304(): return third()[[0, 1], [1, 2]]
def f305(): return third()[:, [0, 1], [3, 2]]
def f306(): return third()[1, [0, 2], [3, -1]]
def f307(): return third()[[1], [0], [2]]
def f308():
    a = third(); b = np.empty_like(a); np.add(a, 1, out=b); return b - a
def f309():
    a = base(); np.conj(a, out=a); return a
def f310():
    a = base(); s = np.zeros(4); np.sum(a, axis=0, out=s); return s
def f311():
    a = np.arange(3.); np.sqrt(a, out=a); return a
def f312(): return np.tensordot(third(), third(), axes=3)
def f313(): return np.tensordot(base(), third(), 2) if False else np.tensordot(third(), base(), axes=2)
def f314():
    a = base(); b = a[0]; np.multiply(b, 3, out=b); return a
def f315(): return np.einsum('ij,ij->', base(), base())
def f316(): return np.einsum('ijk->kj', third())
def f317(): return np.vdot(np.array([1 + 2j, 3]), np.array([2j, 1 - 1j]))
def f318(): return np.trace(base()[:, :3])
def f319(): return np.outer([1, 2], [3., 4, 5])
def f320(): return np.kron(np.eye(2), np.array([[1, 2], [3, 4]]))
def f321(): return third().reshape((6, 4), order='F')
def f322(): return np.reshape(third(), (4, -1), order='F')
def f323(): return third().ravel(order='F')
def f324(): return base().flatten('F')
def f325(): return np.reshape(np.arange(12), (3, 4), order='F')
def f326():
    a = np.arange(12); b = np.reshape(a, (3, 4), order='F'); return b.T
