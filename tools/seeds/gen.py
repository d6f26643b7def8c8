import json,os,subprocess,sys,shutil,textwrap
ROOT=os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
OUT=ROOT + '/seeded'
DEMO='''#!/bin/bash
# Run in the root of the repository: builds a small program against it and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d) || exit 2
trap 'find "$work" -delete' EXIT
mkdir "$work/src"
cp "$here/main.rs" "$work/src/main.rs"
cat > "$work/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
opentype = { path = "$repo", features = [%s] }
X
CARGO_TARGET_DIR="$work/target" cargo run --offline -q --manifest-path "$work/Cargo.toml"
'''
PRE='''#![allow(unused)]
use std::io::{Cursor, Read as _, Seek as _};
use opentype::tape::Read as Tape;
use opentype::truetype::Tag;

type Result<T> = std::io::Result<T>;

/// 16-bit words as bytes.
fn words(words: &[u16]) -> Vec<u8> {
    words.iter().flat_map(|word| word.to_be_bytes()).collect()
}

fn read<T: opentype::value::Read>(bytes: &[u8]) -> Result<T> {
    T::read(&mut Cursor::new(bytes.to_vec()))
}

fn read_given<T: opentype::walue::Read<'static>>(bytes: &[u8], parameter: T::Parameter) -> Result<T> {
    T::read(&mut Cursor::new(bytes.to_vec()), parameter)
}

/// The bytes of a font with the given tables: (tag, checksum, bytes).
fn font(tables: &[(&[u8; 4], u32, &[u8])]) -> Vec<u8> {
    let mut head = words(&[1, 0, tables.len() as u16, 0, 0, 0]);
    let mut body = vec![];
    let start = 12 + 16 * tables.len();
    for (tag, checksum, bytes) in tables {
        head.extend_from_slice(&tag[..]);
        head.extend_from_slice(&checksum.to_be_bytes());
        head.extend_from_slice(&((start + body.len()) as u32).to_be_bytes());
        head.extend_from_slice(&(bytes.len() as u32).to_be_bytes());
        body.extend_from_slice(bytes);
        while body.len() % 4 != 0 { body.push(0); }
    }
    head.extend(body);
    head.extend([0; 16]);
    head
}

fn sum(bytes: &[u8]) -> u32 {
    bytes.chunks(4).fold(0u32, |sum, chunk| {
        let mut word = [0; 4];
        word[..chunk.len()].copy_from_slice(chunk);
        sum.wrapping_add(u32::from_be_bytes(word))
    })
}

'''
BUGS=[]
def bug(id,prop,file,edits,needs,breaks,main,features=()):
    BUGS.append(dict(id=id,prop=prop,file=file,edits=edits,needs=needs,breaks=breaks,main=main,features=features))
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'bugs.py')).read())
def run(b,repo):
    d=os.path.join(OUT,b['id']); os.makedirs(d,exist_ok=True)
    files=b['file'] if isinstance(b['file'],list) else [b['file']]*len(b['edits'])
    for f,(o,n) in zip(files,b['edits']):
        p=os.path.join(repo,f); t=open(p).read()
        assert t.count(o)==1,(b['id'],f,t.count(o),o)
        open(p,'w').write(t.replace(o,n))
    diff=subprocess.run(['git','-C',repo,'diff'],capture_output=True,text=True).stdout
    open(d+'/patch.diff','w').write(diff)
    open(d+'/main.rs','w').write(PRE+textwrap.dedent(b['main']).strip()+'\n')
    open(d+'/demo.sh','w').write(DEMO % ', '.join('"%s"'%f for f in b['features'])); os.chmod(d+'/demo.sh',0o755)
    json.dump(dict(property=b['prop'],needs=b['needs'],what_it_breaks=b['breaks']),open(d+'/meta.json','w'),indent=1)
def check(b,w):
    import threading
    repo='/tmp/seeds/w%d'%w
    if not os.path.exists(repo): subprocess.run(['cp','-a','/repo',repo])
    subprocess.run(['git','-C',repo,'checkout','-q','--','.'])
    subprocess.run(['git','-C',repo,'pull','-q','/repo'],capture_output=True)
    d=os.path.join(OUT,b['id'])
    res=[]
    try: run(b,repo)
    except AssertionError as e: return b['id'],'EDIT '+str(e)
    base=json.load(open('/opt/vp/BASELINE.json'))['stable']
    ok=[]
    for s,f in (('all',['--all-features']),('default',[])):
        r=subprocess.run(['cargo','test','--workspace','--no-fail-fast','--offline',*f,'--','--test-threads','2'],cwd=repo,capture_output=True,text=True)
        if 'error: could not compile' in r.stderr or 'error[' in r.stderr: 
            subprocess.run(['git','-C',repo,'checkout','-q','--','.']); return b['id'],'COMPILE '+r.stderr[-1500:]
        bad=[l for l in r.stdout.split('\n') if l.startswith('test ') and 'FAILED' in l and 'noto_color_emoji' not in l and 'result:' not in l]
        ok.append(bad)
    r1=subprocess.run(['bash',d+'/demo.sh'],cwd=repo,capture_output=True,text=True)
    subprocess.run(['git','-C',repo,'checkout','-q','--','.'])
    r0=subprocess.run(['bash',d+'/demo.sh'],cwd=repo,capture_output=True,text=True)
    return b['id'],dict(fails=ok,patched=r1.returncode,clean=r0.returncode,e1='' if r1.returncode==101 else r1.stderr[-600:],e0=r0.stderr[-600:] if r0.returncode else '')
if __name__=='__main__':
    from concurrent.futures import ThreadPoolExecutor
    import queue
    q=queue.Queue()
    for i in range(4): q.put(i)
    todo=[b for b in BUGS if len(sys.argv)<2 or b['id'] in sys.argv[1:]]
    def go(b):
        w=q.get()
        try: return check(b,w)
        finally: q.put(w)
    with ThreadPoolExecutor(4) as ex:
        for x in ex.map(go,todo): print(x,flush=True)
