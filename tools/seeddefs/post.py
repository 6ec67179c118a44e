for s in SEEDS:
    p=PRE
    for i in s.pop("imports",[]):
        if '"%s"'%i not in p or i=="io":
            p=p.replace('import (\n','import (\n\t"%s"\n'%i if i!="github.com/bantling/micro/io" else 'import (\n\tmio "github.com/bantling/micro/io"\n',1) if '"%s"'%i not in p else p
    if 'mio ' in p: s["demo"]=s["demo"].replace("io.NewError","mio.NewError")
    p+=s.pop("decl","")
    s["demo"]=p+"func main() {\n"+s["demo"]+"\n}\n"
