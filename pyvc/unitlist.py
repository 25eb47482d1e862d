import json, contracts
print(json.dumps([dict(name=u.name, props=u.props, budget=u.budget, target=u.target, bounded=u.bounded) for u in contracts.load_all()]))
