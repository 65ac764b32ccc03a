#!/usr/bin/env python3
"""Mutation testing of the checks: mutate.py SEED SLOTS LIMIT [file.c,...]. Works in copies under /tmp/mt; writes /tmp/mt/log.SEED."""
import re,sys,os,subprocess,random,shutil,json,hashlib,threading,queue
ORIG=os.environ.get('MUT_SRC','/repo')
MAP={
 'parse_message.c':'P02 P03 P05 P04 P01 P24 P25','parse_message_rr.c':'P02 P03 P01 P25','parse_rdata.c':'P02 P03 P01 P16','parse_edns.c':'P05 P01 P02 P24','parse_header.c':'P02 P03',
 'insert_rr_rrset_array.c':'P04 P02 P01','compare_rr_rrset.c':'P04 P24','clear.c':'P01 P24 P02','clear_message.c':'P01 P24','clear_rr.c':'P01 P24','clear_rrset.c':'P01 P24 P18','clear_rrset_array.c':'P01 P24',
 'unpack_name.c':'P06 P03 P02','skip_name.c':'P06 P03','copy_uname.c':'P07 P12 P13','len_uname.c':'P07 P12 P13','domain_to_str.c':'P08 P13','str_to_name.c':'P09 P08 P32 P15',
 'count_labels.c':'P10 P11','left_chop.c':'P10','reverse_name.c':'P10','downcase_name.c':'P10 P04 P19','is_subdomain.c':'P11','downcase_rdata.c':'P19','downcase_rrset.c':'P19',
 'rdata_to_ubuf.c':'P13 P16 P12','rdata_to_str.c':'P13 P16 P15 P14 P12','str_to_rdata.c':'P15 P14 P12','str_to_rdata_ubuf.c':'P15 P12 P14','svcparamkeys_to_str.c':'P13 P15 P12','edns_options.c':'P13 P16 P22','record_descr.c':'P02 P13 P15 P12 P19',
 'serialize_rrset.c':'P17','deserialize_rrset.c':'P18 P17','sort_rrset.c':'P20','rrset_to_ubuf.c':'P23 P18','rr_to_ubuf.c':'P23 P22','rrset_array_to_ubuf.c':'P23','message_to_str.c':'P22','rrset_to_str.c':'P23','rr_to_str.c':'P23','rrset_array_to_str.c':'P23',
 'print_message.c':'P22','print_rr.c':'P23','print_rrset.c':'P23','print_rrset_array.c':'P23','file_load_names.c':'P32','str_to_rrtype.c':'P21','str_to_rrclass.c':'P21','str_to_rcode.c':'P21','opcode_to_str.c':'P21','res_to_str.c':'P21',
 'fast_inet_ntop.c':'P27','b32_encode.c':'P28','b32_decode.c':'P28','b64_encode.c':'P29','b64_decode.c':'P29','my_format.c':'P30','vector.h':'P31','ubuf.h':'P31','varint.c':'P33','heap.c':'P34','crc32c-sse42.c':'P35','crc32c.c':'P35','ip_arith.h':'P36','my_queue_mb.c':'P37','my_queue_mutex.c':'P37','hex_decode.h':'P38','string_replace.h':'P38',
 'argv.c':'P46 P47 P50','zonefile.c':'P49 P51','atomic.h':'P48','atomic_64.h':'P48','atomic_ptr.h':'P48','threadnum.c':'P48','my_alloc.h':'P50','tree.h':'P39','list.h':'P40','lookup3.c':'P41','my_time.h':'P42','my_rate.c':'P42','my_fileset.c':'P43','spooldir.c':'P44','print_string.h':'P45','read_bytes.h':'P45','getenv_int.h':'P45','my_byteorder.h':'P45'}
def strip_comments(s):
    def r(m): return re.sub(r'[^\n]',' ',m.group(0))
    return re.sub(r"/\*.*?\*/|//[^\n]*|'(?:\\.[0-7x]*|[^'\\\n])'"+r'|"(?:\\.|[^"\\])*"',r,s,flags=re.S)
OPS=[(r'(?<![<>=!\-+*/&|])<=(?!=)',['<']),(r'(?<![<>=!\-])>=(?!=)',['>']),(r'(?<![<=\-])<(?![<=])',['<=']),(r'(?<![>=\-])>(?![>=])',['>=']),(r'==',['!=']),(r'!=',['==']),(r'&&',['||']),(r'\|\|',['&&']),
 (r'(?<=[\w\])] )\+(?= [\w(&*])',['-']),(r'(?<=[\w\])] )-(?= [\w(&*])',['+']),(r'\+=',['-=','=']),(r'-=',['+=','=']),(r'\+\+',['--']),(r'(?<![\w.])(\d+)(?![\w.])',['+1','-1']),(r'0x[0-9a-fA-F]+',['+1']),(r'(?<![&])&(?= )(?!&)',['|']),(r'(?<!\|)\|(?= )(?!\|)',['&']),(r'<<',['>>']),(r'(?<![\w>])>>',['<<']),(r'(?<=[(\s])!(?=[\w(*])',['']),(r'\bbreak;',[';']),(r'\bcontinue;',[';']),(r'\btrue\b',['false']),(r'\bfalse\b',['true'])]
# widths and signs of variables, and conditions decided for good
WIDE=[(r'\bsize_t\b(?= \w| \*?\w+[,;)=])',['uint16_t','uint8_t','int']),(r'\bssize_t\b',['int16_t','uint32_t']),(r'\buint16_t\b',['uint8_t','int16_t']),(r'\buint32_t\b',['uint16_t','int32_t']),(r'\buint64_t\b',['uint32_t','int64_t']),(r'\buint8_t\b(?! \*)',['int8_t']),(r'\bunsigned\b(?! (?:char|long|int|short))',['uint8_t','uint16_t','int']),(r'\bint\b(?= \w+( =|;|,))',['int8_t','int16_t']),(r'\bunsigned long\b',['uint16_t','uint32_t']),(r'\blong int\b',['int16_t'])]
FORCE=re.compile(r'(?<!\w)(?:if|while) ?(\()')
def closing(c,i):
    d=0
    for j in range(i,len(c)):
        if c[j]=='(': d+=1
        elif c[j]==')':
            d-=1
            if d==0: return j
    return -1
MODE=os.environ.get('MUT_OPS','all')
def mutants(path):
    s=open(path).read(); c=strip_comments(s); out=[]
    # body: after first function-ish brace; skip preprocessor lines
    pos=0; lines=[]
    for l in c.split('\n'): lines.append((pos,l)); pos+=len(l)+1
    depth=0
    for off,l in lines:
        inbody=depth>0
        depth+=l.count('{')-l.count('}')
        st=l.strip()
        if st.startswith('#') and not st.startswith('#define'): continue
        if not inbody and not ('\\' in l): continue
        for m in (FORCE.finditer(l) if MODE in('all','wide') else ()):
            a=off+m.start(1); b=closing(c,a)
            if b>0:
                out.append((a,b+1,'(0)'))
                if m.group(0)[0]=='i': out.append((a,b+1,'(1)'))
        for rx,reps in (OPS if MODE=='base' else WIDE if MODE=='wide' else OPS+WIDE):
            for m in re.finditer(rx,l):
                for r in reps:
                    if r in('+1','-1'):
                        t=m.group(0); v=int(t,16) if t.startswith('0x') else int(t); w=v+(1 if r=='+1' else -1)
                        if w<0: continue
                        r2=hex(w) if t.startswith('0x') else str(w)
                    else: r2=r
                    out.append((off+m.start(),off+m.end(),r2))
        if MODE=='wide': continue
        m=re.match(r'^(\s+)([\w*(&].*;)(\s*\\?)$',l)
        if m and not re.match(r'(return|goto|break|case|default|const|static|unsigned|uint\w*|int|size_t|char|bool|wdns_\w+ \w+;|ubuf \*|ssize_t|struct|void|else|for|if|while|do\b|\})',m.group(2)):
            out.append((off+m.start(2),off+m.end(2),';'))
        if m and re.match(r'return \(?[\w(]',m.group(2)) is None: pass
    res=[]
    for a,b,r in out:
        res.append((a,b,r,s[:a]+r+s[b:]))
    return s,res
def main():
    seed=int(sys.argv[1]); slots=int(sys.argv[2]); limit=int(sys.argv[3]); only=sys.argv[4].split(',') if len(sys.argv)>4 else None
    allm=[]
    for d in('wdns','libmy'):
        for f in sorted(os.listdir(ORIG+'/'+d)):
            if f in MAP and (not only or f in only):
                s,ms=mutants('%s/%s/%s'%(ORIG,d,f))
                for i,(a,b,r,t) in enumerate(ms): allm.append((d+'/'+f,a,b,r,t,s))
    random.Random(seed).shuffle(allm)
    print(len(allm),'mutants in all',flush=True)
    allm=allm[:limit]
    q=queue.Queue(); [q.put(x) for x in allm]
    os.makedirs('/tmp/mt',exist_ok=True); log=open('/tmp/mt/log.%d'%seed,'a'); lock=threading.Lock(); cnt={}
    def objhash(repo,f):
        if f.endswith('.h'): return None
        r=subprocess.run(['clang','-std=gnu11','-O2','-w','-include','/repo/config.h','-include','/repo/wdns/wdns-private.h','-I',repo,'-I',repo+'/wdns','-I/repo','-I/repo/wdns','-c',repo+'/'+f,'-o','-'],stdout=subprocess.PIPE,stderr=subprocess.DEVNULL)
        return hashlib.sha256(r.stdout).hexdigest() if r.returncode==0 else 'bad'
    base={}
    def work(k):
        root='/tmp/mt/s%d'%k; shutil.rmtree(root,ignore_errors=True); os.makedirs(root)
        subprocess.run('git -C /verif archive --prefix=verif/ HEAD | tar x -C %s; cp /verif/bin/check %s/verif/bin/; git -C /repo archive --prefix=repo/ HEAD | tar x -C %s'%(root,root,root),shell=True)
        env=dict(os.environ,WDNS_REPO=root+'/repo',PBT_JOBS='2')
        while True:
            try: f,a,b,r,t,s=q.get_nowait()
            except queue.Empty: return
            fn=os.path.basename(f); line=s.count('\n',0,a)+1
            open(root+'/repo/'+f,'w').write(t)
            st='SURVIVED'
            try:
                h=objhash(root+'/repo',f)
                if h=='bad': st='nocompile'
                else:
                    if h:
                        if f not in base:
                            open(root+'/repo/'+f,'w').write(s); base[f]=objhash(root+'/repo',f); open(root+'/repo/'+f,'w').write(t)
                        if base[f]==h: st='equivalent'
                    if st=='SURVIVED':
                        for p in MAP[fn].split():
                            try:
                                x=subprocess.run([sys.executable,root+'/verif/bin/check',p,'--scale','0.35'],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,env=env,timeout=900,cwd=root)
                            except subprocess.TimeoutExpired: st='TIMEOUT '+p; break
                            if x.returncode==1: st='killed '+p; break
                            if x.returncode!=0: st='norun %s rc=%d %s'%(p,x.returncode,x.stdout[-200:].decode('utf8','replace').replace('\n',' ')); break
            finally:
                open(root+'/repo/'+f,'w').write(s)
            ls=s.split('\n')[line-1].strip(); le=t.split('\n')[line-1].strip()
            with lock:
                cnt[st.split()[0]]=cnt.get(st.split()[0],0)+1
                log.write('%s | %s:%d | %s | => %s\n'%(st,f,line,ls,le)); log.flush()
            # keep the build cache small
            bd=root+'/verif/build'
            if os.path.isdir(bd):
                ds=sorted((os.path.join(bd,x) for x in os.listdir(bd) if x!='obj'),key=os.path.getmtime)
                for d in ds[:-12]: shutil.rmtree(d,ignore_errors=True)
    th=[threading.Thread(target=work,args=(k,)) for k in range(slots)]
    [x.start() for x in th]; [x.join() for x in th]
    print(cnt)
main()
