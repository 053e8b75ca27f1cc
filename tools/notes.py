DONE = ["C01","C02","C03","C04","C05","C06","C07","C08","C09","C10","C11","C12","C13","C14","C15","C16","C17","C18","C19","C20","C21","C22","C23","C24"]
NA = {}
COMMON = " Exhaustive within the bounds written in the evidence file, on the real code built from /repo's current tree with a deterministic random stream; trusts lattigo's ring arithmetic and the big-integer / vector reference models of mc/lab."
LEVEL = {}
