package main

import (
	_ "embed"
	"encoding/json"
)

//go:embed meta.json
var metaJSON []byte

func init() {
	var meta map[string]struct {
		Technique   string   `json:"technique"`
		Explain     string   `json:"explain"`
		Assumptions []string `json:"assumptions"`
		Min         int      `json:"min"`
	}
	if err := json.Unmarshal(metaJSON, &meta); err != nil {
		panic(err)
	}
	for id, run := range ruleFuncs {
		m := meta[id]
		register(&Rule{ID: id, Technique: m.Technique, Explain: m.Explain, Assumptions: m.Assumptions, Min: m.Min, Run: run})
	}
}

var ruleFuncs = map[string]func(*Ctx){
	"T01": ruleT01, "T02": ruleT02, "T03": ruleT03, "T04": ruleT04, "T05": ruleT05, "T06": ruleT06, "T07": ruleT07, "T08": ruleT08, "T09": ruleT09, "T10": ruleT10, "T12": ruleT12, "T13": ruleT13, "T14": ruleT14, "T15": ruleT15, "T16": ruleT16, "T17": ruleT17, "T18": ruleT18, "T19": ruleT19, "T20": ruleT20, "T21": ruleT21, "T22": ruleT22, "T23": ruleT23, "T24": ruleT24, "T25": ruleT25, "T26": ruleT26, "T27": ruleT27, "T28": ruleT28, "T29": ruleT29, "T30": ruleT30, "T31": ruleT31, "T32": ruleT32, "T33": ruleT33, "T38": ruleT38, "T39": ruleT39, "T40": ruleT40,
}
