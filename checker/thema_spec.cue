package thema
import ("list"
"struct")
#TranslatedInstance: {
	from:   #SyntacticVersion
	to:     #SyntacticVersion
	result: _
	lacunas: [...#Lacuna]
}
#Translate: {
	L=lin: _
	I=inst: {...}
	FV=from: #SyntacticVersion
	TV=to:   #SyntacticVersion
	let cmp = (_cmpSV & {l: FV, r: TV}).out
	out: {
		steps: [...#TranslatedInstance]
		result: {
			from:   FV
			to:     TV
			result: *steps[len(steps)-1].result | I
		}
		lacunas: [ for step in steps if len(step.lacunas) > 0 {
			v: step.to
			lacunas: [ for lac in step.lacunas {
				sourceFields: lac.sourceFields
				targetFields: lac.targetFields
				message:      lac.message
				type:         lac.type.id
			}]
		}]
	}
	out: {
		steps: [
			if cmp == 1 {
				let hi = (L._flatidx & {v: FV}).out
				let lo = (L._flatidx & {v: TV}).out
				_accum: [{result: I, to: FV}, for i, pos in list.Range(hi-1, lo-1, -1) {
					let prior = _accum[i]
					let schdef = L.schemas[pos]
					_lens: L._backwardLenses[(L._flatidx & {v: schdef.version}).out] & {
						input: prior.result
						from: prior.to
						to:   schdef.version
					}
					from: _lens.from
					to:   _lens.to
					result: {_lens.result, schdef._#schema}
					lacunas: [ for lac in _lens.lacunas if lac.condition {lac}]
				}]
				list.Drop(_accum, 1)
			},
			if cmp == -1 {
				let lo = (L._flatidx & {v: FV}).out
				let hi = (L._flatidx & {v: TV}).out
				let schrange = list.Slice(L.schemas, lo+1, hi+1)
				_accum: [{result: I, to: FV}, for i, schdef in schrange {
					let prior = _accum[i]
					if prior.to[0] == schdef.version[0] {
						from: prior.to
						to:   schdef.version
						result: {prior.result, schdef._#schema}
					}
					if prior.to[0] < schdef.version[0] {
						_lens: L._forwardLenses[schdef.version[0]-1] & {
							input: prior.result
							from: prior.to
							to:   schdef.version
						}
						from: prior.to
						to:   schdef.version
						result: {_lens.result, schdef._#schema}
						lacunas: [ for lac in _lens.lacunas if lac.condition {lac}]
					}
				}]
				list.Drop(_accum, 1)
			},
			if cmp == 0 {[]},
		][0]
	}
}
#Lineage: {
	name: string
	joinSchema: _
	schemas: [#SchemaDef, ...#SchemaDef]
	if joinSchema != _|_ {
		schemas: [{_join: joinSchema}, ...{{_join: joinSchema}}]
	}
	lenses: [...#Lens]
	_atLeastOneSchema: len(schemas) > 0
	SS=_schemas: [...]
	if _atLeastOneSchema == true {
		_schemas: schemas
	}
	if _atLeastOneSchema == false {
		_schemas: [#SchemaDef & {version: [0, 0]}]
	}
	_forwardLenses: [ for lens in lenses if {lens.to[0] > lens.from[0]} {lens}]
	_backwardLenses: [ for lens in lenses if {lens.to[0] <= lens.from[0]} {lens}]
	_counts: [...uint64] & list.MinItems(1)
	if len(SS) == 1 {
		_counts: [0]
	}
	if len(SS) > 1 {
		_pos: [0, for i, sch in list.Drop(SS, 1) if SS[i].version[0] < sch.version[0] {i + 1}]
		_counts: [ for i, idx in list.Slice(_pos, 0, len(_pos)-1) {
			_pos[i+1] - idx
		}, len(SS) - _pos[len(_pos)-1]]
	}
	_basis: [0, for maj, _ in list.Drop(_counts, 1) {
		list.Sum(list.Take(_counts, maj+1))
	}]
	#LatestVersion: SS[len(SS)-1].version
	_flatidx: {
		v: #SyntacticVersion
		out: _basis[v[0]] + v[1]
	}
}
#SchemaDef: {
	version: #SyntacticVersion | *[0, 0]
	schema: _
	_join: _
	_#schema: _join & schema
	examples?: [string]: _#schema
}
#Lens: {
	from: #SyntacticVersion
	to: #SyntacticVersion
	input: _
	result: struct.MinFields(0)
	lacunas: [...#Lacuna]
}
#SyntacticVersion: [uint64, uint64]
_cmpSV: FN={
	l:   #SyntacticVersion
	r:   #SyntacticVersion
	out: -1 | 0 | 1
	out: {
		if FN.l[0] < FN.r[0] {-1}
		if FN.l[0] > FN.r[0] {1}
		if FN.l[0] == FN.r[0] && FN.l[1] < FN.r[1] {-1}
		if FN.l[0] == FN.r[0] && FN.l[1] > FN.r[1] {1}
		if FN.l == FN.r {0}
	}
}
#Lacuna: {
	#FieldRef: {
		value: _
		path:  string
	}
	condition: bool | *true
	sourceFields: [...#FieldRef]
	targetFields: [...#FieldRef]
	message: string
	type: or([ for t in #LacunaTypes {t}])
}
#LacunaTypes: [N=string]: #LacunaType & {name: N}
#LacunaTypes: {
	Placeholder: {
		id: 1
	}
	DroppedField: {
		id: 2
	}
	LossyFieldMapping: {
		id: 3
	}
	ChangedDefault: {
		id: 4
	}
}
#LacunaType: {
	name: string
	id:   int
}
#SearchAndValidate: fn={
	lin: _
	inst: {...}
	out: #LinkedInstance
	out: [ for _, sch in fn.lin.schemas if ((inst & sch._#schema) != _|_) {
		v:    sch.version
		lin:  fn.lin
		inst: fn.inst & sch._#schema
	}, _|_][0]
}
#ValidFor: {
	lin: _
	inst: {...}
	out: #SyntacticVersion
	out: [ for _, sch in lin.schemas if ((sch._#schema & inst) != _|_) {sch.version}][0]
}
#LinkedInstance: {
	inst: {...}
	lin:        #Lineage & {_atLeastOneSchema: true}
	v:          #SyntacticVersion
}
