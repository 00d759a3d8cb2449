package aggregate

import (
	"encoding/json"
	"fmt"
	"math"
	"strings"

	"github.com/guptarohit/asciigraph"

	nd "github.com/choria-io/go-choria/internal/verifnd"
)

//verif:replace github.com/guptarohit/asciigraph.Plot verifPlot

var verifPlotted []float64

// verifPlot draws nothing but has the demands of the library
func verifPlot(v []float64, o ...asciigraph.Option) string {
	if len(v) == 0 {
		panic("no data")
	}
	for _, f := range v {
		if math.IsNaN(f) || math.IsInf(f, 0) {
			panic("not a number")
		}
	}
	verifPlotted = append([]float64{}, v...)
	return "plot"
}

//verif:harness prop=R01 reach=counted,mapped,empty,format clock=frozen
//verif:bounds up to 3 values that are any of 4 letters, true, false or empty, with and without names for true, false and a, and with and without a format
func VerifSummary() {
	cfg := map[string]any{}
	names := nd.OneOf("names", "none", "some") == "some"
	if names {
		cfg["true"], cfg["false"], cfg["a"] = "Yes", "No", 1
	}
	format := nd.OneOf("format", "", "%s is %d")
	if format != "" {
		cfg["format"] = format
		nd.Reach("format")
	}
	args := []any{"out"}
	if len(cfg) > 0 {
		args = append(args, cfg)
	}
	agg, err := AggregatorByType(nd.OneOf("type", "summary", "boolean_summary"), args)
	nd.Assert(err == nil && agg.Type() == "summary", "a summary is refused")

	n := nd.Choice("values", 4)
	vals := make([]string, n)
	for i := 0; i < n; i++ {
		switch nd.OneOf("value", "letter", "true", "false", "", "bool") {
		case "letter":
			vals[i] = string([]byte{nd.Uint8("letter", 'a', 'd')})
			nd.Assert(agg.ProcessValue(vals[i]) == nil, "a value is refused")
		case "true":
			vals[i] = "true"
			nd.Assert(agg.ProcessValue("true") == nil, "a value is refused")
		case "false":
			vals[i] = "false"
			nd.Assert(agg.ProcessValue("false") == nil, "a value is refused")
		case "bool":
			// only as it is mapped, other types that look the same are counted apart
			if names {
				vals[i] = "true"
				nd.Assert(agg.ProcessValue(true) == nil, "a value is refused")
			} else {
				vals[i] = ""
				nd.Assert(agg.ProcessValue("") == nil, "a value is refused")
			}
		default:
			nd.Assert(agg.ProcessValue("") == nil, "a value is refused")
		}
		if names {
			switch vals[i] {
			case "true":
				vals[i] = "Yes"
				nd.Reach("mapped")
			case "false":
				vals[i] = "No"
			case "a":
				vals[i] = "1"
			}
		}
	}
	res, err := agg.ResultStrings()
	nd.Assert(err == nil, "a summary fails")
	j, err := agg.ResultJSON()
	nd.Assert(err == nil, "a summary fails")
	counts := map[string]int{}
	nd.Assert(json.Unmarshal(j, &counts) == nil, "a summary is not valid")
	distinct, most := 0, 0
	for i, v := range vals {
		c, first := 0, true
		for k, o := range vals {
			if o == v {
				c++
				first = first && k >= i
			}
		}
		nd.Assert(res[v] == fmt.Sprint(c), "a value is not counted as often as it was received")
		nd.Assert(counts[v] == c, "a value is not counted as often as it was received in JSON")
		if first {
			distinct++
		}
		if c > most {
			most = c
		}
		nd.Reach("counted")
	}
	nd.Assert(len(res) == distinct && len(counts) == distinct, "values are counted that were not received")
	lines, err := agg.ResultFormattedStrings("")
	nd.Assert(err == nil && len(lines) == distinct, "values are missing in the text or it has others")
	if n == 0 {
		nd.Reach("empty")
		return
	}
	nd.Assert(strings.HasSuffix(lines[0], fmt.Sprintf(" %d", most)), "the value that was received most is not first")
	for _, v := range vals {
		found := false
		for _, l := range lines {
			if format == "" {
				found = found || strings.HasSuffix(l, v+": "+res[v])
			} else {
				found = found || l == v+" is "+res[v]
			}
		}
		nd.Assert(found, "a value is missing in the text")
	}
}

//verif:harness prop=R01 reach=average,chart,none,refused clock=frozen
//verif:bounds up to 3 values any integer of -3 to 3, one of 3 fractions, or one of 8 texts that are or are not numbers
func VerifNumbers() {
	verifPlotted = nil
	avg, err := AggregatorByType("average", []any{"out"})
	nd.Assert(err == nil, "an average is refused")
	chart, err := AggregatorByType("chart", []any{"out"})
	nd.Assert(err == nil, "a chart is refused")
	n := nd.Choice("values", 4)
	sum, count := 0.0, 0
	last := 0.0
	for i := 0; i < n; i++ {
		var v any
		f, ok := 0.0, true
		switch nd.OneOf("type", "int", "int64", "float", "text", "bool") {
		case "int":
			k := nd.Concrete(nd.Int("int", -3, 3))
			v, f = k, float64(k)
		case "int64":
			k := int64(-5 * i)
			v, f = k, float64(k)
		case "float":
			f = []float64{0, -2.5, 1e300}[nd.Choice("float", 3)]
			v = f
		case "text":
			s := nd.OneOf("text", "1", "-2.5", "1e3", "", "x", "NaN", "Inf", "1e999")
			v = s
			f, ok = map[string]float64{"1": 1, "-2.5": -2.5, "1e3": 1000}[s], s == "1" || s == "-2.5" || s == "1e3"
		default:
			v, ok = true, false
		}
		e1, e2 := avg.ProcessValue(v), chart.ProcessValue(v)
		nd.Assert((e1 == nil) == ok && (e2 == nil) == ok, "a value is refused that is a number or used that is not")
		if ok {
			sum += f
			last = f
			count++
		} else {
			nd.Reach("refused")
		}
	}
	j, err := avg.ResultJSON()
	if count == 0 {
		nd.Reach("none")
	} else {
		nd.Assert(err == nil, "an average fails")
		res := map[string]float64{}
		nd.Assert(json.Unmarshal(j, &res) == nil, "an average is not valid")
		nd.Assert(res["average"] == sum/float64(count), "an average is not the average of the numbers")
		nd.Reach("average")
	}
	_, err = avg.ResultStrings()
	nd.Assert(err == nil, "an average fails")
	l, err := avg.ResultFormattedStrings("")
	nd.Assert(err == nil && len(l) == 1, "an average fails")
	r, err := chart.ResultStrings()
	nd.Assert(err == nil && len(r) == 1, "a chart fails")
	l, err = chart.ResultFormattedStrings("")
	nd.Assert(err == nil && len(l) == 1, "a chart fails")
	_, err = chart.ResultJSON()
	nd.Assert(err == nil, "a chart fails")
	if count == 0 {
		nd.Assert(l[0] == "" && len(verifPlotted) == 0, "a chart of nothing shows something")
	} else {
		nd.Assert(len(verifPlotted) == count && verifPlotted[count-1] == last, "a chart shows other values")
		nd.Assert(l[0] == "plot", "a chart is not shown")
		nd.Reach("chart")
	}
}
