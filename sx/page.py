"""The page the browser shows, as a tree of elements; runs in both worlds."""
import json
import re
import subprocess


class JSError(Exception):
    """the script fails"""


# -- the page

class Element(object):
    def __init__(self, tag, attrs, kids=(), text=""):
        self.tag, self.attrs, self.kids, self.text = tag, dict(attrs), list(kids), text

    def all(self):
        for k in self.kids:
            yield k
            for x in k.all():
                yield x

    def by_id(self, i):
        for x in self.all():
            if x.attrs.get("id") == i:
                return x
        return None

    def by_class(self, c):
        cs = c.split()
        return [x for x in self.all() if all(y in x.attrs.get("class", "").split() for y in cs)]

    def matches(self, sel):
        for kind, name in re.findall(r"([.#]?)([\w-]+)", re.sub(r"\[.*?\]", "", sel)):
            if kind == "#" and self.attrs.get("id") != name:
                return False
            if kind == "." and name not in self.attrs.get("class", "").split():
                return False
            if kind == "" and self.tag != name:
                return False
        for name, _, value in re.findall(r"\[([\w-]+)=(['\"]?)(.*?)\2\]", sel):
            if self.attrs.get(name) != value:
                return False
        return True

    def select(self, sel):
        if not re.match(r"^[\w\s.#\[\]='\"-]*$", sel):
            raise NotImplementedError("selector " + sel)
        parts = sel.split()
        out = [self]
        for p in parts:
            seen = []
            for e in out:
                for x in e.all():
                    if x.matches(p) and not any(x is y for y in seen):
                        seen.append(x)
            out = seen
        return out

    def set_text(self, v):
        self.kids = []
        self.text = v


def tree(data):
    """[tag, attrs, text, kids] as an element"""
    return Element(data[0], data[1], [tree(k) for k in data[3]], data[2])


def data_of(e):
    return [e.tag, e.attrs, e.text, [data_of(k) for k in e.kids]]


NODE_PAGE = r"""
const fs=require('fs'),vm=require('vm');
const inp=JSON.parse(fs.readFileSync(0,'utf8'));
class El{
 constructor(d){this.tag=d[0];this.attrs=d[1];this._text=d[2];this.kids=d[3].map(k=>new El(k));
  if(this.tag=='svg'||this.tag=='#document')
   this.getElementById=i=>{for(const x of this.all())if(x.attrs.id===String(i))return x;return null;};}
 *all(){for(const k of this.kids){yield k;yield* k.all();}}
 cls(){return (this.attrs['class']||'').split(/\s+/);}
 getElementsByClassName(c){const cs=c.split(/\s+/);return [...this.all()].filter(x=>cs.every(y=>x.cls().includes(y)));}
 getElementsByTagName(t){return [...this.all()].filter(x=>x.tag===t);}
 matches(sel){let m;const a=/\[([\w-]+)=(['"]?)(.*?)\2\]/g;while((m=a.exec(sel)))if(this.attrs[m[1]]!==m[3])return false;
  const r=/([.#]?)([\w-]+)/g;const p=sel.replace(/\[.*?\]/g,'');
  while((m=r.exec(p))){if(m[1]=='#'&&this.attrs.id!==m[2])return false;if(m[1]=='.'&&!this.cls().includes(m[2]))return false;
   if(m[1]==''&&this.tag!==m[2])return false;}return true;}
 querySelectorAll(sel){let out=[this];for(const p of sel.trim().split(/\s+/)){const s=[];for(const e of out)for(const x of e.all())
  if(x.matches(p)&&!s.includes(x))s.push(x);out=s;}return out;}
 querySelector(s){return this.querySelectorAll(s)[0]||null;}
 getAttribute(a){return a in this.attrs?this.attrs[a]:null;}
 hasAttribute(a){return a in this.attrs;}
 setAttribute(a,v){this.attrs[a]=String(v);}
 removeAttribute(a){delete this.attrs[a];}
 addEventListener(){}
 get innerHTML(){return this._text;} set innerHTML(v){this.kids=[];this._text=v===null?'':String(v);}
 get textContent(){return this._text;} set textContent(v){this.innerHTML=v;}
 get innerText(){return this._text;} set innerText(v){this.innerHTML=v;}
 get id(){return this.attrs.id||'';} set id(v){this.attrs.id=String(v);}
 get className(){return this.attrs['class']||'';} set className(v){this.attrs['class']=String(v);}
 get tagName(){return this.tag;} get children(){return this.kids.slice();}
 get firstElementChild(){return this.kids[0]||null;} get lastElementChild(){return this.kids[this.kids.length-1]||null;}
 data(){return [this.tag,this.attrs,this._text,this.kids.map(k=>k.data())];}
}
const doc=new El(['#document',{},'',[inp.data]]);
const hs={};const sock={on:(n,f)=>{(hs[n]=hs[n]||[]).push(f);},emit(){},off(){},connect(){}};
const io=()=>sock;io.connect=()=>sock;
const out=[];let err=null;
try{
 const ctx=vm.createContext({document:doc,io:io,console:{log(){},warn(){},error(){}},window:{}});
 for(const p of inp.scripts)vm.runInContext(fs.readFileSync(p,'utf8'),ctx);
 for(const [n,m] of inp.messages){for(const f of hs[n]||[])f(m);out.push(JSON.parse(JSON.stringify(doc.kids[0].data())));}
}catch(e){err=String(e);}
process.stdout.write(JSON.stringify({out:out,err:err}));
"""


def node_run(scripts, data, messages):
    """the same with a real JavaScript engine: the page after each message"""
    r = subprocess.run(["node", "-e", NODE_PAGE],
                       input=json.dumps(dict(scripts=scripts, data=data, messages=messages)).encode(),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if r.returncode:
        raise RuntimeError(r.stderr.decode()[-500:])
    r = json.loads(r.stdout.decode())
    return r["out"], r["err"]
