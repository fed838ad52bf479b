List = list
Dict = dict
