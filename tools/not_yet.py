NOT_YET = {k: "check under construction" for k in ()}
