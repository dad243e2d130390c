import subprocess
known = """
C02 if-not-precedence '#if !1 == 2': ! applies to the whole comparison, so the section is kept
C02 if-bitand-precedence '#if 2 & 2 == 2': & binds tighter than == (as in Python), so the section is kept
C02 if-logical-value '#if (2 || 0) == 1': the value of || is the one of its operand, so the section is skipped
C02 if-chained-comparison '#if 5 > 4 == 1': comparisons are chained like in Python, so the section is skipped
C04 constant-boolean-operators '#define A (1 && 1)' has no value
C04 macro-of-enumerator 'enum { E = 4 };' then '#define A (E + 1)' in the same file: A has no value
C03 macro-defined-later '#define A T' then '#define T int' then 'extern A x;': the type of x is T (macros are expanded when they are defined)
C05 fnmacro-no-parameter '#define F() 3': a macro without parameters is not recognised
C05 fnmacro-several-lines 'F(1,' newline ' 2)': a call spanning lines is not expanded
C05 fnmacro-stringize '#define S(x) #x': the operator # is left in the text
C05 fnmacro-paste '#define C(x, y) x##y': the operator ## is left in the text
C06 initialised-list 'int a = 1, b = 2;': the variables of a list with initial values are lost
C07 postfix-const-list 'int const a, b;': the const is only reported for a
C09 pack-bare-push '#pragma pack(2)', push 4, pop: the default packing is restored instead of 2 (the existing tests require it)
C13 same-base-name two files named h.h in different directories share the same definitions by file
C14 copied-unnamed-collide copy_from=[p1, p2] where both have an unnamed structure: the two are given the same name, and the first is lost
C15 cache-option-undefined a macro given as an option and removed by '#undef' is back when the cache is loaded
C31 unparsed-unnamed process_all(return_unparsed=True) once all is parsed: 'typedef struct { int a; } T;' is given a second structure, of another name
C20 null-sized-array None given for a parameter 'int a[3]' passes a zeroed array, not NULL
"""
out=["# Findings of the checks. known: still there, each probed by vf/probes.py at every",
"# run of its check. fixed: repaired in /repo (commit), reported again if it returns.",""]
for l in known.strip().splitlines():
    p,k,w=l.split(' ',2)
    out.append("known: property=%s key=%s %s"%(p,k,w))
out.append("")
pr={'ac2a1b1':'C31','bec2872':'C06','4d129f7':'C08','5159392':'C04','ac329ec':'C04','9ee6f15':'C04','c5ed8ee':'C06','d18ace4':'C06','c6583b0':'C08','420b621':'C04','7c69164':'C04','871632d':'C04','e48ff7e':'C04','59a25b8':'C16','34e149d':'C29','20244dc':'C29','690e8d8':'C29','4c99e66':'C30','37c657f':'C30','8f91fc3':'C29','96e43e0':'C25','1e21d86':'C27','34d7f58':'C26','4dfe428':'C28','ca314e5':'C28','7f28e31':'C24','ce04ebf':'C25','ec50704':'C25','4defd61':'C23','305e937':'C25','c480d5b':'C24','c3a7052':'C29','fccb581':'C29','8dfb1f2':'C29','f300213':'C20','88189ae':'C19','4e33ab7':'C19','943c909':'C27','0ef52e8':'C21','382901d':'C18','bc3787d':'C18','835b4e6':'C22','d0a027a':'C23','5fe9240':'C25','d67bcfd':'C18','bae7fe1':'C25','f55c7b8':'C25','028accb':'C27','e2f7aac':'C19','e613c83':'C19','08cf48c':'C19','5a9e2dd':'C06','620639c':'C30','bf310f7':'C08','e9b5b10':'C09','503a7b3':'C09','58c63ba':'C09','acc6cb1':'C04','d888000':'C04','5b2d62c':'C02','17ac4a5':'C03','0150d5b':'C03','be5cbbc':'C01','f732dad':'C01','1feccee':'C05','b0fc5b8':'C05','bdb6966':'C03','2203358':'C03','a72d120':'C28','b926c7d':'C28','702192a':'C28','b70819c':'C15','38fe954':'C16','209905b':'C24','fdc08b5':'C06','ce0efc7':'C06','dbea8a0':'C04','d16e533':'C04','62804f1':'C04','a0c32f2':'C07','7a2aaa2':'C07','a6a9b64':'C08','6bc5c26':'C09','09a9ba9':'C12','22006ac':'C10','6da028c':'C16','1955484':'C12','b84f133':'C06','352bd4b':'C32','a4f65c6':'C16','b5ad4e0':'C15','7be72ce':'C05'}
import json,os
extra='/verif/tools/fixed.json'
log=subprocess.run(['git','-C','/repo','log','--reverse','--format=%h %s','fbf19c5..HEAD'],capture_output=True,text=True).stdout
for l in log.splitlines():
    h,s=l.split(' ',1)
    assert s.startswith('fix: ')
    out.append("fixed: property=%s %s %s"%(pr[h[:7]],h,s[5:]))
open('/verif/KNOWN_FINDINGS.txt','w').write("\n".join(out)+"\n")
