import ast,sys
class S(ast.NodeTransformer):
    def visit(self,n):
        self.generic_visit(n)
        if isinstance(n,(ast.FunctionDef,ast.ClassDef,ast.Module)) and n.body and isinstance(n.body[0],ast.Expr) and isinstance(n.body[0].value,ast.Constant) and isinstance(n.body[0].value.value,str):
            n.body=n.body[1:] or [ast.Pass()]
        return n
for f in sys.argv[1:]:
    print('#####',f); print(ast.unparse(S().visit(ast.parse(open(f).read()))))
