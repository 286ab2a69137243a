"""Linear forms over canonical expressions."""
from .ir import *
def lin(e):
    """(dict term->coef, const); integer width changes are transparent"""
    t={}; c=0
    def go(e,k):
        nonlocal c
        op=e[0]
        if op=='c': c+=k*e[1]
        elif op in('add',): go(e[1],k); go(e[2],k)
        elif op=='sub': go(e[1],k); go(e[2],-k)
        elif op in('zext','sext','trunc'): go(e[2],k)
        elif op=='mul' and e[2][0]=='c': go(e[1],k*e[2][1])
        elif op=='mul' and e[1][0]=='c': go(e[2],k*e[1][1])
        elif op=='shl' and e[2][0]=='c': go(e[1],k<<e[2][1])
        else:
            t[e]=t.get(e,0)+k
            if t[e]==0: del t[e]
    go(e,1)
    return t,c
def lsub(a,b):
    t=dict(a[0])
    for k,v in b[0].items():
        t[k]=t.get(k,0)-v
        if t[k]==0: del t[k]
    return t,a[1]-b[1]
def ladd(a,b,k=1):
    t=dict(a[0])
    for x,v in b[0].items():
        t[x]=t.get(x,0)+k*v
        if t[x]==0: del t[x]
    return t,a[1]+k*b[1]
def leq0(fn, icmp, truth):
    """linear form D such that (icmp has value truth) <=> D <= 0 over the integers; None if not an order comparison"""
    p=icmp.pred; a=lin(fn.ex(icmp.o[0])); b=lin(fn.ex(icmp.o[1]))
    if p in('eq','ne'): return None
    p=p[1:]
    if not truth: p={'gt':'le','ge':'lt','lt':'ge','le':'gt'}[p]
    if p=='le': return lsub(a,b)
    if p=='lt': d=lsub(a,b); return d[0],d[1]+1
    if p=='ge': return lsub(b,a)
    if p=='gt': d=lsub(b,a); return d[0],d[1]+1
