module lib_test { import lib.* from "./lib"
 pure val n=16
 pure val q=97
 pure val a = rngList(5,n).foldl([],(l,x)=>l.append(x%q))
 pure val b = rngList(6,n).foldl([],(l,x)=>l.append(x%q))
 run t1 = all { assert(powmod(3,10,1000)==59049%1000), assert(invmod(5,97)*5%97==1),
   assert(autom(autom(a,5,n,q),13,n,q)==a), // 65 mod 32 = 1
   assert(autom(negacyclic(a,b,n,q),5,n,q)==negacyclic(autom(a,5,n,q),autom(b,5,n,q),n,q)),
   assert(monomial(monomial(a,5,n,q),27,n,q)==a),
   assert(negacyclic(a,range(0, n).foldl([], (l, i) => l.append(if(i==3)1 else 0)),n,q)==monomial(a,3,n,q)),
   assert(rdiv(-3,2)==-1), assert(rdivAway(-3,2)==-2), assert(fdiv(-3,2)==-2),
   assert(unfold(conjInvProd(a,b,n,q),n).foldl([],(l,x)=>l.append(modp(x,q)))==negacyclic(unfold(a,n),unfold(b,n),2*n,q)),
   assert(a != b) }
}
