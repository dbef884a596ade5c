NA={}
