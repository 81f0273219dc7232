import math,heapq,json
def counts(R):
    E=2.718281828459; d=[];N=0
    p=1-math.pow((E-1)/E,1.0/R)
    while p>1e-50 and N<255:
        d.append(p);N+=1
        p=(math.pow(E,1.0/R)-1)*math.pow(E-1,1.0/R); p/=math.pow(E,(N+1)/R)
    ans=[1]*N
    f=lambda i:d[i]*(math.log2(ans[i]+1)-math.log2(ans[i]))
    h=[(-f(i),i) for i in range(N)]; heapq.heapify(h)
    for _ in range((1<<14)-N):
        v,i=heapq.heappop(h); ans[i]+=1; heapq.heappush(h,(-f(i),i))
    return [-1 if a==1 else a for a in ans]
if __name__=='__main__':
    for R in (4.7,2.75,2.7,2.6,2.45,1.0): print(json.dumps(counts(R)))
