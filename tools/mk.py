import sys,os,subprocess,json
# mk(id, prop, [(file, old, new)], demo_cpp, needs, breaks)
DEMO='''#!/bin/bash
# Compiles demo.cpp against the library of /repo and runs it.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -r "$t"' EXIT
g++ -std=gnu++20 -O1 -w -DNDEBUG -DBUILD_TESTS -DSPDLOG_COMPILED_LIB -DSPDLOG_FMT_EXTERNAL -D_DISABLE_CONSTEXPR_MUTEX_CONSTRUCTOR=1 \\
    '-DCURA_ENGINE_VERSION="x"' '-DCURA_ENGINE_HASH="u"' '-DSENTRY_ENVIRONMENT=""' -ffunction-sections -fdata-sections \\
    @INC@-Iinclude -Isrc -I/usr/include/stb "$d/demo.cpp" @SRC@-o "$t/demo" @LIB@-Wl,--gc-sections -lspdlog -lfmt -lpolyclipping -lpng -ltbb -lpthread || exit 0
timeout 250 "$t/demo"
'''
def mk(i, prop, edits, demo, needs, breaks, src="", inc="", lib="_build/lib_CuraEngine.a "):
    d=f'/verif/seeded/{i}'; os.makedirs(d,exist_ok=True)
    import tempfile, shutil
    t=tempfile.mkdtemp()
    for f,o,n in edits:
        for side in 'ab':
            p=f'{t}/{side}/{f}'
            if not os.path.exists(p):
                os.makedirs(os.path.dirname(p),exist_ok=True); shutil.copy('/repo/'+f,p)
        x=open(f'{t}/b/{f}').read()
        assert x.count(o)==1,(f,o,x.count(o))
        open(f'{t}/b/{f}','w').write(x.replace(o,n))
    diff=''
    for f in sorted({e[0] for e in edits}):
        diff+=f'diff --git a/{f} b/{f}\n'+subprocess.run(['diff','-u',f'a/{f}',f'b/{f}','--label',f'a/{f}','--label',f'b/{f}'],cwd=t,capture_output=True,text=True).stdout
    shutil.rmtree(t)
    open(d+'/patch.diff','w').write(diff)
    open(d+'/demo.cpp','w').write(demo)
    open(d+'/demo.sh','w').write(DEMO.replace('@SRC@',src).replace('@INC@',inc).replace('@LIB@',lib))
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
