From 4c93e53e8702f1fd42dc553f2294cc64c1558173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:26 +0000
Subject: [PATCH 01/33] fix: read and write GroupLabel elements

LabelType had a fixed XML name Label, although it is also used for
GroupLabel. An MPD with a GroupLabel could therefore not be read, and a
GroupLabel was written as Label.
---
 mpd/mpd.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mpd/mpd.go b/mpd/mpd.go
index 3d02e9a..83dc7e0 100644
--- a/mpd/mpd.go
+++ b/mpd/mpd.go
@@ -710,11 +710,11 @@ type ContentPopularityRateType struct {
 }
 
 // LabelType is Label and Group Label.
+// Note that XMLName is not set, since the same structure is used for both Label and GroupLabel.
 type LabelType struct {
-	XMLName xml.Name `xml:"Label"`
-	Id      uint32   `xml:"id,attr,omitempty"` // default = 0
-	Lang    string   `xml:"lang,attr,omitempty"`
-	Value   string   `xml:",chardata"`
+	Id    uint32 `xml:"id,attr,omitempty"` // default = 0
+	Lang  string `xml:"lang,attr,omitempty"`
+	Value string `xml:",chardata"`
 }
 
 // ProducerReferenceTimeType is Producer Reference time.
-- 
2.43.0


From ac433aeafe9ed2c34849d3ad7a7f610ba368a081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:36 +0000
Subject: [PATCH 02/33] fix: read and write InitializationGroup,
 InitializationPresentation and QualityLatency

The structures had fixed XML names which differ from the element names, so
that an MPD with any of these elements could not be read, and the list of
integers was mapped to a child element and not to the text content.
---
 mpd/mpd.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/mpd/mpd.go b/mpd/mpd.go
index 83dc7e0..6101d5d 100644
--- a/mpd/mpd.go
+++ b/mpd/mpd.go
@@ -331,20 +331,21 @@ type PlaybackRestrictionsType struct {
 	SkipAfter Duration `xml:"skipAfter,attr,omitempty"`
 }
 
-// UIntPairsWithIDType is UInt Pairs With ID.
+// UIntPairsWithIDType is UInt Pairs With ID, used for QualityLatency.
+// Note that XMLName is not set, since the element name differs from the type name.
 type UIntPairsWithIDType struct {
-	XMLName xml.Name `xml:"UIntPairsWithID"`
-	Type    AnyURI   `xml:"type,attr,omitempty"`
-	*UIntVectorType
+	Type            AnyURI            `xml:"type,attr,omitempty"`
+	*UIntVectorType `xml:",chardata"` // text content
 }
 
-// UIntVWithIDType is UInt Vector With ID
+// UIntVWithIDType is UInt Vector With ID, used for InitializationGroup and InitializationPresentation.
+// Note that XMLName is not set, since the same structure is used for several elements.
 type UIntVWithIDType struct {
-	XMLName     xml.Name               `xml:"UIntVWithID"`
 	Id          uint32                 `xml:"id,attr"`
 	Profiles    ListOfProfilesType     `xml:"profiles,attr,omitempty"`
 	ContentType RFC6838ContentTypeType `xml:"contentType,attr,omitempty"`
-	UIntVectorType
+	// UIntVectorType is the text content of the element.
+	UIntVectorType `xml:",chardata"`
 }
 
 // AdaptationSetType is AdaptationSet or EmptyAdaptationSet.
-- 
2.43.0


From 975c0670d7c3e5efbf4d293240b67746af1febfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:39 +0000
Subject: [PATCH 03/33] fix: never declare a namespace prefix twice on an
 element

An element with a prefixed name or attribute and an explicit xmlns:prefix
attribute for the same prefix (as when scte214:ContentIdentifier with its
namespace declared on the element itself is read and written again) was
written with a duplicate xmlns:prefix attribute, which is not well-formed.
---
 xml/marshal.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/xml/marshal.go b/xml/marshal.go
index c8acede..ac43f30 100644
--- a/xml/marshal.go
+++ b/xml/marshal.go
@@ -409,6 +409,18 @@ type printer struct {
 	err        error
 }
 
+// declarePrefix registers a prefix which is explicitly declared on the element.
+func (e *element) declarePrefix(prefix, uri string) {
+	if e.nsToPrefix == nil {
+		e.nsToPrefix = make(map[string]string)
+		e.prefixToNS = make(map[string]string)
+	}
+	if e.nsToPrefix[uri] == "" {
+		e.nsToPrefix[uri] = prefix
+	}
+	e.prefixToNS[prefix] = uri
+}
+
 // getPrefix finds the prefix to use for the given namespace URI, but does not create it.
 func (p *printer) getPrefix(uri string) string {
 	switch uri {
@@ -820,6 +832,14 @@ func (p *printer) writeStart(start *StartElement) error {
 	p.elements = append(p.elements, newElement(start.Name))
 	e := &p.elements[len(p.elements)-1]
 
+	// Register the prefixes declared by xmlns:prefix="uri" attributes up front,
+	// so that they are used where they fit, and are never declared a second time.
+	for _, attr := range start.Attr {
+		if attr.Name.Space == xmlnsURL && attr.Name.Local != "" && attr.Value != "" {
+			e.declarePrefix(attr.Name.Local, attr.Value)
+		}
+	}
+
 	// Set the namespace prefix, if necessary
 	var spaceDefined bool
 	if e.xmlns != "" {
@@ -891,7 +911,6 @@ func (p *printer) writeStart(start *StartElement) error {
 		prefix, local := splitPrefixed(attr.Name.Local)
 		p.WriteByte(' ')
 		if attr.Name.Space == xmlnsURL {
-			p.createPrefix(attr.Value, local)
 			p.WriteString(xmlnsPrefix)
 			p.WriteByte(':')
 		} else if attr.Name.Space != "" {
-- 
2.43.0


From dc2e51a5389331e29e52096270efd42a380239d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:04 +0000
Subject: [PATCH 04/33] fix: Switching interval is an attribute

It was mapped to a child element, so that the attribute was lost.
---
 mpd/mpd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpd/mpd.go b/mpd/mpd.go
index 6101d5d..226b33e 100644
--- a/mpd/mpd.go
+++ b/mpd/mpd.go
@@ -757,7 +757,7 @@ type SubsetType struct {
 // SwitchingType is Switching
 type SwitchingType struct {
 	XMLName  xml.Name          `xml:"Switching"`
-	Interval uint32            `xml:"interval"`
+	Interval uint32            `xml:"interval,attr"`
 	Type     SwitchingTypeType `xml:"type,attr,omitempty"` // default = "media"
 }
 
-- 
2.43.0


From cb7a75bb8e6658b8daf29daa7bcb12da8eecd2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:05 +0000
Subject: [PATCH 05/33] fix: use the xlink namespace for all xlink attributes

The xlink attributes of AdaptationSet and the show attribute of SegmentList
lacked the namespace in their tags. They were written without prefix, and
attributes without or with other namespace were read into them.
---
 mpd/mpd.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mpd/mpd.go b/mpd/mpd.go
index 226b33e..d5c2a34 100644
--- a/mpd/mpd.go
+++ b/mpd/mpd.go
@@ -351,10 +351,10 @@ type UIntVWithIDType struct {
 // AdaptationSetType is AdaptationSet or EmptyAdaptationSet.
 // Note that XMLName is not set, since the same structure is used also for EmptyAdaptationSet.
 type AdaptationSetType struct {
-	XlinkHref               string                 `xml:"xlink:href,attr,omitempty"`
-	XlinkActuate            string                 `xml:"xlink:actuate,attr,omitempty"` // default is "onRequest"
-	XlinkType               string                 `xml:"xlink:type,attr,omitempty"`    // fixed "simple"
-	XlinkShow               string                 `xml:"xlink:show,attr,omitempty"`    // fixed "embed"
+	XlinkHref               string                 `xml:"http://www.w3.org/1999/xlink xlink:href,attr,omitempty"`
+	XlinkActuate            string                 `xml:"http://www.w3.org/1999/xlink xlink:actuate,attr,omitempty"` // default is "onRequest"
+	XlinkType               string                 `xml:"http://www.w3.org/1999/xlink xlink:type,attr,omitempty"`    // fixed "simple"
+	XlinkShow               string                 `xml:"http://www.w3.org/1999/xlink xlink:show,attr,omitempty"`    // fixed "embed"
 	Id                      *uint32                `xml:"id,attr"`
 	Group                   uint32                 `xml:"group,attr,omitempty"`
 	Lang                    string                 `xml:"lang,attr,omitempty"`
@@ -845,7 +845,7 @@ type SegmentListType struct {
 	XlinkHref    string            `xml:"http://www.w3.org/1999/xlink xlink:href,attr,omitempty"`
 	XlinkActuate string            `xml:"http://www.w3.org/1999/xlink xlink:actuate,attr,omitempty"` // default = "onRequest"
 	XlinkType    string            `xml:"http://www.w3.org/1999/xlink xlink:type,attr,omitempty"`    // fixed = "simple"
-	XlinkShow    string            `xml:"xlink:show,attr,omitempty"`                                 // fixed "embed"
+	XlinkShow    string            `xml:"http://www.w3.org/1999/xlink xlink:show,attr,omitempty"`    // fixed "embed"
 	SegmentURL   []*SegmentURLType `xml:"SegmentURL"`
 	MultipleSegmentBaseType
 }
-- 
2.43.0


From 6a8789710871ccb72288fb16e6d4c111a8f34c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:58 +0000
Subject: [PATCH 06/33] fix: write base type elements before those of the
 derived type

---
 mpd/mpd.go | 64 +++++++++++++++++++++++++++---------------------------
 1 file changed, 32 insertions(+), 32 deletions(-)

diff --git a/mpd/mpd.go b/mpd/mpd.go
index d5c2a34..cdb29ea 100644
--- a/mpd/mpd.go
+++ b/mpd/mpd.go
@@ -256,23 +256,23 @@ type SelectionType struct {
 
 // InitializationSetType is Initialization Set.
 type InitializationSetType struct {
-	XMLName         xml.Name               `xml:"InitializationSet"`
-	XlinkHref       string                 `xml:"http://www.w3.org/1999/xlink xlink:href,attr,omitempty"`
-	XlinkActuate    string                 `xml:"http://www.w3.org/1999/xlink xlink:actuate,attr,omitempty"` // default = "onRequest"
-	XlinkType       string                 `xml:"http://www.w3.org/1999/xlink xlink:type,attr,omitempty"`    // fixed = "simple"
-	Id              uint32                 `xml:"id,attr"`
-	InAllPeriods    *bool                  `xml:"inAllPeriods,attr"` // default is true
-	ContentType     RFC6838ContentTypeType `xml:"contentType,attr,omitempty"`
-	Par             RatioType              `xml:"par,attr,omitempty"`
-	MaxWidth        uint32                 `xml:"maxWidth,attr,omitempty"`
-	MaxHeight       uint32                 `xml:"maxHeight,attr,omitempty"`
-	MaxFrameRate    string                 `xml:"maxFrameRate,attr,omitempty"`
-	Initialization  AnyURI                 `xml:"initialization,attr,omitempty"`
-	Accessibilities []*DescriptorType      `xml:"Accessibility"`
-	Roles           []*DescriptorType      `xml:"Role"`
-	Ratings         []*DescriptorType      `xml:"Rating"`
-	Viewpoints      []*DescriptorType      `xml:"Viewpoint"`
+	XMLName        xml.Name               `xml:"InitializationSet"`
+	XlinkHref      string                 `xml:"http://www.w3.org/1999/xlink xlink:href,attr,omitempty"`
+	XlinkActuate   string                 `xml:"http://www.w3.org/1999/xlink xlink:actuate,attr,omitempty"` // default = "onRequest"
+	XlinkType      string                 `xml:"http://www.w3.org/1999/xlink xlink:type,attr,omitempty"`    // fixed = "simple"
+	Id             uint32                 `xml:"id,attr"`
+	InAllPeriods   *bool                  `xml:"inAllPeriods,attr"` // default is true
+	ContentType    RFC6838ContentTypeType `xml:"contentType,attr,omitempty"`
+	Par            RatioType              `xml:"par,attr,omitempty"`
+	MaxWidth       uint32                 `xml:"maxWidth,attr,omitempty"`
+	MaxHeight      uint32                 `xml:"maxHeight,attr,omitempty"`
+	MaxFrameRate   string                 `xml:"maxFrameRate,attr,omitempty"`
+	Initialization AnyURI                 `xml:"initialization,attr,omitempty"`
 	RepresentationBaseType
+	Accessibilities []*DescriptorType `xml:"Accessibility"`
+	Roles           []*DescriptorType `xml:"Role"`
+	Ratings         []*DescriptorType `xml:"Rating"`
+	Viewpoints      []*DescriptorType `xml:"Viewpoint"`
 }
 
 // ServiceDescriptionType is Service Description.
@@ -737,11 +737,11 @@ type PreselectionType struct {
 	PreselectionComponents *StringVectorType     `xml:"preselectionComponents,attr"`
 	Lang                   string                `xml:"lang,attr,omitempty"`
 	Order                  PreselectionOrderType `xml:"order,attr,omitempty"`
-	Accessibilities        []*DescriptorType     `xml:"Accessibility"`
-	Roles                  []*DescriptorType     `xml:"Role"`
-	Ratings                []*DescriptorType     `xml:"Rating"`
-	Viewpoints             []*DescriptorType     `xml:"Viewpoint"`
 	RepresentationBaseType
+	Accessibilities []*DescriptorType `xml:"Accessibility"`
+	Roles           []*DescriptorType `xml:"Role"`
+	Ratings         []*DescriptorType `xml:"Rating"`
+	Viewpoints      []*DescriptorType `xml:"Viewpoint"`
 }
 
 // AudioSamplingRateType is UIntVectorType with 1 or 2 components.
@@ -811,15 +811,15 @@ func (s *SegmentBaseType) SetTimescale(timescale uint32) {
 
 // MultipleSegmentBaseType is Multiple Segment information base.
 type MultipleSegmentBaseType struct {
-	Duration           *uint32              `xml:"duration,attr,omitempty"`
-	Tolerance          *float64             `xml:"tolerance,attr,omitempty"`
-	StartNumber        *uint32              `xml:"startNumber,attr,omitempty"`
-	EndNumber          *uint32              `xml:"endNumber,attr,omitempty"`
-	EndSubNumber       *uint64              `xml:"endSubNumber,attr,omitempty"`
-	K                  *uint64              `xml:"k,attr,omitempty"` // Number of Segments per Sequence (Ed. 6)
+	Duration     *uint32  `xml:"duration,attr,omitempty"`
+	Tolerance    *float64 `xml:"tolerance,attr,omitempty"`
+	StartNumber  *uint32  `xml:"startNumber,attr,omitempty"`
+	EndNumber    *uint32  `xml:"endNumber,attr,omitempty"`
+	EndSubNumber *uint64  `xml:"endSubNumber,attr,omitempty"`
+	K            *uint64  `xml:"k,attr,omitempty"` // Number of Segments per Sequence (Ed. 6)
+	SegmentBaseType
 	SegmentTimeline    *SegmentTimelineType `xml:"SegmentTimeline"`
 	BitstreamSwitching *URLType             `xml:"BitstreamSwitching"`
-	SegmentBaseType
 }
 
 // URLType is Segment Info item URL/range.
@@ -842,12 +842,12 @@ type FailoverContentType struct {
 
 // SegmentListType is Segment List.
 type SegmentListType struct {
-	XlinkHref    string            `xml:"http://www.w3.org/1999/xlink xlink:href,attr,omitempty"`
-	XlinkActuate string            `xml:"http://www.w3.org/1999/xlink xlink:actuate,attr,omitempty"` // default = "onRequest"
-	XlinkType    string            `xml:"http://www.w3.org/1999/xlink xlink:type,attr,omitempty"`    // fixed = "simple"
-	XlinkShow    string            `xml:"http://www.w3.org/1999/xlink xlink:show,attr,omitempty"`    // fixed "embed"
-	SegmentURL   []*SegmentURLType `xml:"SegmentURL"`
+	XlinkHref    string `xml:"http://www.w3.org/1999/xlink xlink:href,attr,omitempty"`
+	XlinkActuate string `xml:"http://www.w3.org/1999/xlink xlink:actuate,attr,omitempty"` // default = "onRequest"
+	XlinkType    string `xml:"http://www.w3.org/1999/xlink xlink:type,attr,omitempty"`    // fixed = "simple"
+	XlinkShow    string `xml:"http://www.w3.org/1999/xlink xlink:show,attr,omitempty"`    // fixed "embed"
 	MultipleSegmentBaseType
+	SegmentURL []*SegmentURLType `xml:"SegmentURL"`
 }
 
 // SegmentURLType is Segment URL.
-- 
2.43.0


From 4ccfe696660171d25e762aa99d18330f8253c753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:59 +0000
Subject: [PATCH 07/33] fix: keep track of the default namespace in scope when
 writing elements

---
 xml/marshal.go | 64 ++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 46 insertions(+), 18 deletions(-)

diff --git a/xml/marshal.go b/xml/marshal.go
index ac43f30..d38f724 100644
--- a/xml/marshal.go
+++ b/xml/marshal.go
@@ -369,6 +369,7 @@ type element struct {
 	xmlns      string
 	prefix     string
 	name       string
+	defaultNS  string // default namespace in scope inside the element, if it is known
 	nsToPrefix map[string]string
 	prefixToNS map[string]string
 }
@@ -421,6 +422,26 @@ func (e *element) declarePrefix(prefix, uri string) {
 	e.prefixToNS[prefix] = uri
 }
 
+// innerDefaultNS returns the default namespace in scope inside the current element.
+func (p *printer) innerDefaultNS() string {
+	if len(p.elements) == 0 {
+		return ""
+	}
+	return p.elements[len(p.elements)-1].defaultNS
+}
+
+// usePrefix notes that the current element uses a prefix which may be declared
+// further out, so that the element does not declare it for another namespace.
+func (p *printer) usePrefix(prefix, uri string) {
+	if len(p.elements) == 0 || uri == xmlURL || uri == xmlnsURL {
+		return
+	}
+	e := &p.elements[len(p.elements)-1]
+	if e.prefixToNS[prefix] == "" {
+		e.declarePrefix(prefix, uri)
+	}
+}
+
 // getPrefix finds the prefix to use for the given namespace URI, but does not create it.
 func (p *printer) getPrefix(uri string) string {
 	switch uri {
@@ -438,7 +459,7 @@ func (p *printer) getPrefix(uri string) string {
 		if prefix != "" {
 			// Look for prefix collision deeper in the tree
 			for i++; i < len(p.elements); i++ {
-				if p.elements[i].prefixToNS[prefix] != "" {
+				if ns := p.elements[i].prefixToNS[prefix]; ns != "" && ns != uri {
 					return ""
 				}
 			}
@@ -453,6 +474,7 @@ func (p *printer) getPrefix(uri string) string {
 // If set, it will attempt to use preferred as the prefix.
 func (p *printer) createPrefix(uri, preferred string) (string, bool) {
 	if prefix := p.getPrefix(uri); prefix != "" && (prefix == preferred || preferred == "") {
+		p.usePrefix(prefix, uri)
 		return prefix, false
 	}
 
@@ -793,7 +815,7 @@ func defaultStart(typ reflect.Type, finfo *fieldInfo, startTemplate *StartElemen
 func (p *printer) marshalInterface(val Marshaler, start StartElement) error {
 	// Push a marker onto the element stack so that MarshalXML
 	// cannot close the XML tags that it did not open.
-	p.elements = append(p.elements, element{})
+	p.elements = append(p.elements, element{defaultNS: p.innerDefaultNS()})
 	n := len(p.elements)
 
 	err := val.MarshalXML(p.encoder, start)
@@ -829,7 +851,9 @@ func (p *printer) writeStart(start *StartElement) error {
 	}
 
 	// Push a new XML element
-	p.elements = append(p.elements, newElement(start.Name))
+	elem := newElement(start.Name)
+	elem.defaultNS = p.innerDefaultNS()
+	p.elements = append(p.elements, elem)
 	e := &p.elements[len(p.elements)-1]
 
 	// Register the prefixes declared by xmlns:prefix="uri" attributes up front,
@@ -840,24 +864,21 @@ func (p *printer) writeStart(start *StartElement) error {
 		}
 	}
 
+	// Find the default namespace inside the element.
+	var xmlnsAttr bool
+	for _, attr := range start.Attr {
+		if attr.Name.Space == "" && attr.Name.Local == xmlnsPrefix {
+			xmlnsAttr = true
+			e.defaultNS = attr.Value
+		}
+	}
+
 	// Set the namespace prefix, if necessary
 	var spaceDefined bool
 	if e.xmlns != "" {
 		// Try to avoid needing a prefix first.
-		for _, attr := range start.Attr {
-			if attr.Name.Space == "" && attr.Name.Local == xmlnsPrefix && attr.Value == e.xmlns {
-				spaceDefined = true
-				break
-			}
-		}
-		// Walk up the tree to see if a default namespace is already defined without a prefix.
-		if !spaceDefined && e.prefix == "" {
-			for i := len(p.elements) - 2; i >= 0; i-- {
-				if p.elements[i].prefix == "" && p.elements[i].xmlns == e.xmlns {
-					spaceDefined = true
-					break
-				}
-			}
+		if e.prefix == "" && e.defaultNS == e.xmlns {
+			spaceDefined = true
 		}
 		// Locate an eventual prefix. If none, the XML is <tag name and no short notation is used
 		if !spaceDefined && e.prefix == "" {
@@ -873,14 +894,21 @@ func (p *printer) writeStart(start *StartElement) error {
 		if !spaceDefined && e.prefix == "" {
 			e.prefix = p.getPrefix(e.xmlns)
 			if e.prefix != "" {
+				p.usePrefix(e.prefix, e.xmlns)
 				spaceDefined = true
 			}
 		}
+		if !spaceDefined && e.prefix == "" && !xmlnsAttr {
+			e.defaultNS = e.xmlns
+		}
+	} else if xmlnsAttr {
+		// Only a namespace which is also that of its element is reused.
+		e.defaultNS = ""
 	}
 
 	p.writeIndent(1) // handling relative depth of a tag
 	p.WriteByte('<')
-	if e.prefix != "" {
+	if e.prefix != "" || e.xmlns != "" && xmlnsAttr && !spaceDefined {
 		var prefixCreated bool
 		if e.xmlns != "" && !spaceDefined {
 			e.prefix, prefixCreated = p.createPrefix(e.xmlns, e.prefix)
-- 
2.43.0


From b75afe2f6c613d03fe82cf32655fe60cc1ba9cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:35 +0000
Subject: [PATCH 08/33] fix: write PrivateBytes in the namespace of its parent

---
 mpd/scte35.go | 38 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/mpd/scte35.go b/mpd/scte35.go
index 5867dad..7edf4f9 100644
--- a/mpd/scte35.go
+++ b/mpd/scte35.go
@@ -470,6 +470,44 @@ type ExtType struct {
 	InnerXML string     `xml:",innerxml"`
 }
 
+// privateBytes is the PrivateBytes element with its namespace.
+type privateBytes struct {
+	XMLName xml.Name
+	Value   string `xml:",chardata"`
+}
+
+// newPrivateBytes returns the PrivateBytes element for a parent, or nil if there is none.
+func newPrivateBytes(parent xml.Name, value string) *privateBytes {
+	if value == "" {
+		return nil
+	}
+	return &privateBytes{XMLName: xml.Name{Space: parent.Space, Local: "PrivateBytes"}, Value: value}
+}
+
+// MarshalXML writes the PrivateBytes element in the namespace of its parent.
+func (p PrivateCommandType) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
+	type plain PrivateCommandType
+	if p.XMLName.Local != "" {
+		start.Name = p.XMLName
+	}
+	return e.EncodeElement(struct {
+		plain
+		PrivateBytes *privateBytes `xml:"PrivateBytes"`
+	}{plain(p), newPrivateBytes(p.XMLName, p.PrivateBytes)}, start)
+}
+
+// MarshalXML writes the PrivateBytes element in the namespace of its parent.
+func (p PrivateDescriptorType) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
+	type plain PrivateDescriptorType
+	if p.XMLName.Local != "" {
+		start.Name = p.XMLName
+	}
+	return e.EncodeElement(struct {
+		plain
+		PrivateBytes *privateBytes `xml:"PrivateBytes"`
+	}{plain(p), newPrivateBytes(p.XMLName, p.PrivateBytes)}, start)
+}
+
 // canonicalSCTE35Name returns an xml.Name with the canonical SCTE-35 namespace
 // and the given local name. Used by the New* constructors below.
 func canonicalSCTE35Name(local string) xml.Name {
-- 
2.43.0


From 5e7f26482c8ee31daae8e224977335da094f8f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:29 +0000
Subject: [PATCH 09/33] fix: read and write CMCD lists as whitespace-separated
 values

---
 mpd/mpd.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/mpd/mpd.go b/mpd/mpd.go
index cdb29ea..b6bc43d 100644
--- a/mpd/mpd.go
+++ b/mpd/mpd.go
@@ -996,6 +996,20 @@ type LeapSecondInformationType struct {
 // StringNoWhitespaceVectorType is Whitespace-separated list of no-whitespace strings
 type StringNoWhitespaceVectorType []string
 
+// MarshalXMLAttr writes the list as one whitespace-separated attribute value.
+func (v *StringNoWhitespaceVectorType) MarshalXMLAttr(name xml.Name) (xml.Attr, error) {
+	if v == nil {
+		return xml.Attr{}, nil
+	}
+	return xml.Attr{Name: name, Value: strings.Join(*v, " ")}, nil
+}
+
+// UnmarshalXMLAttr reads a whitespace-separated attribute value.
+func (v *StringNoWhitespaceVectorType) UnmarshalXMLAttr(attr xml.Attr) error {
+	*v = strings.Fields(attr.Value)
+	return nil
+}
+
 // ContentSteeringType is Content Steering.
 type ContentSteeringType struct {
 	DefaultServiceLocation string `xml:"defaultServiceLocation,attr,omitempty"`
-- 
2.43.0


From 879eb47942259d192ad6a4312c022890ac5fd23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:50 +0000
Subject: [PATCH 10/33] fix: derive period duration from derived period start

---
 mpd/period.go | 44 +++++++++++++++++---------------------------
 1 file changed, 17 insertions(+), 27 deletions(-)

diff --git a/mpd/period.go b/mpd/period.go
index 6f09105..fe08781 100644
--- a/mpd/period.go
+++ b/mpd/period.go
@@ -129,7 +129,8 @@ func (p *Period) GetStart() (Duration, error) {
 	return 0, ErrUnknownPeriodStart
 }
 
-// GetDuration returns the period's duration if specified or the MPD is single-period static.
+// GetDuration returns the period's duration if specified, or else the difference between its start and
+// the start of the next period, or the end of the presentation for the last period of a static MPD.
 func (p *Period) GetDuration() (Duration, error) {
 	if p.Duration != nil {
 		return *p.Duration, nil
@@ -138,40 +139,29 @@ func (p *Period) GetDuration() (Duration, error) {
 	if m == nil {
 		return 0, ErrParentNotSet
 	}
-	nrPeriods := len(m.Periods)
 	idx, err := p.GetIndex()
 	if err != nil {
 		return 0, err
 	}
-	switch m.GetType() {
-	case STATIC_TYPE:
+	var end *Duration
+	switch {
+	case idx < len(m.Periods)-1:
+		end = m.Periods[idx+1].Start
+	case m.GetType() == STATIC_TYPE:
 		if m.MediaPresentationDuration == nil {
 			return 0, ErrNoMediaPresentationDuration
 		}
-		end := *m.MediaPresentationDuration
-		if idx < nrPeriods-1 {
-			if m.Periods[idx+1].Start == nil {
-				return 0, ErrUnknownPeriodDur
-			}
-			end = *m.Periods[idx+1].Start
-		}
-		if p.Start == nil {
-			return 0, ErrUnknownPeriodDur
-		}
-		return end - *p.Start, nil
-	default: // dynamic
-		if p.Start == nil {
-			// Early available period
-			return 0, ErrUnknownPeriodDur
-		}
-		if idx == nrPeriods-1 {
-			return 0, ErrUnknownPeriodDur
-		}
-		if m.Periods[idx+1].Start == nil {
-			return 0, ErrUnknownPeriodDur
-		}
-		return *m.Periods[idx+1].Start - *p.Start, nil
+		end = m.MediaPresentationDuration
+	}
+	if end == nil {
+		return 0, ErrUnknownPeriodDur
+	}
+	start, err := p.GetStart()
+	if err != nil {
+		// Early available period
+		return 0, ErrUnknownPeriodDur
 	}
+	return *end - start, nil
 }
 
 // Clone returns a deep copy of the Period with parent links set.
-- 
2.43.0


From 516f1716528b35cc822d59fa3c2df2edd0121018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:37 +0000
Subject: [PATCH 11/33] fix: reject out-of-range and malformed durations, and
 parse seconds exactly

---
 mpd/duration.go | 73 ++++++++++++++++++++++++++++++++++---------------
 1 file changed, 51 insertions(+), 22 deletions(-)

diff --git a/mpd/duration.go b/mpd/duration.go
index 3befc58..2e03e6e 100644
--- a/mpd/duration.go
+++ b/mpd/duration.go
@@ -3,6 +3,7 @@ package mpd
 import (
 	"math"
 	"strconv"
+	"strings"
 	"time"
 
 	"github.com/Eyevinn/dash-mpd/xml"
@@ -245,7 +246,7 @@ func ParseDuration(str string) (time.Duration, error) {
 		if rank(unit) <= rank(lastUnit) {
 			return 0, newParseDurationError("duration must be in the format: P[nD][T[nH][nM][nS]]")
 		}
-		if unit != 'D' && !afterT {
+		if (unit == 'D') == afterT {
 			return 0, newParseDurationError("duration must be in the format: P[nD][T[nH][nM][nS]]")
 		}
 		if sawDot && unit != 'S' {
@@ -256,39 +257,67 @@ func ParseDuration(str string) (time.Duration, error) {
 
 		numStr := str[start : i-1] // digits (and maybe '.') without the unit letter
 
+		var part time.Duration
+		var err error
 		switch unit {
 		case 'D':
-			n, err := strconv.ParseUint(numStr, 10, 64)
-			if err != nil {
-				return 0, newParseDurationError("error parsing Days")
-			}
-			total += time.Duration(n) * 24 * time.Hour
+			part, err = parseWhole(numStr, 24*time.Hour, "Days")
 		case 'H':
-			n, err := strconv.ParseUint(numStr, 10, 64)
-			if err != nil {
-				return 0, newParseDurationError("error parsing Hours")
-			}
-			total += time.Duration(n) * time.Hour
+			part, err = parseWhole(numStr, time.Hour, "Hours")
 		case 'M':
-			n, err := strconv.ParseUint(numStr, 10, 64)
-			if err != nil {
-				return 0, newParseDurationError("error parsing Minutes")
-			}
-			total += time.Duration(n) * time.Minute
+			part, err = parseWhole(numStr, time.Minute, "Minutes")
 		case 'S':
-			f, err := strconv.ParseFloat(numStr, 64)
-			if err != nil {
-				return 0, newParseDurationError("error parsing Seconds")
-			}
-			total += time.Duration(f * float64(time.Second))
+			part, err = parseSeconds(numStr)
+		}
+		if err != nil {
+			return 0, err
 		}
+		if part > math.MaxInt64-total {
+			return 0, newParseDurationError("duration out of range")
+		}
+		total += part
 	}
-	if !seenAny {
+	if !seenAny || afterT && lastUnit == 'D' {
 		return 0, newParseDurationError("at least one number and designator are required")
 	}
 	return total, nil
 }
 
+// parseWhole parses a whole number of units.
+func parseWhole(num string, unit time.Duration, name string) (time.Duration, error) {
+	n, err := strconv.ParseUint(num, 10, 64)
+	if err != nil {
+		return 0, newParseDurationError("error parsing " + name)
+	}
+	if n > uint64(math.MaxInt64/unit) {
+		return 0, newParseDurationError("duration out of range")
+	}
+	return time.Duration(n) * unit, nil
+}
+
+// parseSeconds parses a number of seconds with an optional fraction, of which nine digits are significant.
+func parseSeconds(num string) (time.Duration, error) {
+	whole, frac, hasFrac := strings.Cut(num, ".")
+	if whole == "" || hasFrac && frac == "" {
+		return 0, newParseDurationError("error parsing Seconds")
+	}
+	s, err := parseWhole(whole, time.Second, "Seconds")
+	if err != nil {
+		return 0, err
+	}
+	var ns time.Duration
+	for i := range 9 {
+		ns *= 10
+		if i < len(frac) {
+			ns += time.Duration(frac[i] - '0')
+		}
+	}
+	if ns > math.MaxInt64-s {
+		return 0, newParseDurationError("duration out of range")
+	}
+	return s + ns, nil
+}
+
 // Seconds returns the duration as a floating point number of seconds.
 func (d *Duration) Seconds() float64 {
 	return float64(*d) / float64(time.Second)
-- 
2.43.0


From 00386d49a2a919572519c0daac663937514d1c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:38 +0000
Subject: [PATCH 12/33] fix: write durations just below one second as PT1S

---
 mpd/duration.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpd/duration.go b/mpd/duration.go
index 2e03e6e..da336fd 100644
--- a/mpd/duration.go
+++ b/mpd/duration.go
@@ -79,7 +79,7 @@ func (d *Duration) String() string {
 		// Time smaller than ms, return higher precision
 		w, u = fmtFrac(buf[:w], u, 9)
 		w = fmtInt(buf[:w], u)
-	case s == 0:
+	case s == 0 && ms < 1000:
 		// Time smaller than 1s, return ms
 		w, _ = fmtFrac(buf[:w], ms, 3)
 		w--
-- 
2.43.0


From 8ff5db023728ef408ee755fee6ebb69c29e0c6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:13 +0000
Subject: [PATCH 13/33] fix: set the parents of empty adaptation sets

---
 mpd/parents.go | 25 ++++++-------------------
 1 file changed, 6 insertions(+), 19 deletions(-)

diff --git a/mpd/parents.go b/mpd/parents.go
index 6bbc61c..9afb08d 100644
--- a/mpd/parents.go
+++ b/mpd/parents.go
@@ -5,15 +5,7 @@ package mpd
 func (m *MPD) SetParents() {
 	for _, p := range m.Periods {
 		p.SetParent(m)
-		for _, a := range p.AdaptationSets {
-			a.SetParent(p)
-			for _, r := range a.Representations {
-				r.SetParent(a)
-				for _, sr := range r.SubRepresentations {
-					sr.SetParent(r)
-				}
-			}
-		}
+		p.SetParents()
 	}
 }
 
@@ -25,13 +17,10 @@ func (m *MPD) AppendPeriod(p *Period) {
 
 // SetParents sets the parent pointers for all children of p.
 func (p *Period) SetParents() {
-	for _, a := range p.AdaptationSets {
-		a.SetParent(p)
-		for _, r := range a.Representations {
-			r.SetParent(a)
-			for _, sr := range r.SubRepresentations {
-				sr.SetParent(r)
-			}
+	for _, sets := range [][]*AdaptationSetType{p.AdaptationSets, p.EmptyAdaptationSets} {
+		for _, a := range sets {
+			a.SetParent(p)
+			a.SetParents()
 		}
 	}
 }
@@ -46,9 +35,7 @@ func (p *Period) AppendAdaptationSet(a *AdaptationSetType) {
 func (a *AdaptationSetType) SetParents() {
 	for _, r := range a.Representations {
 		r.SetParent(a)
-		for _, sr := range r.SubRepresentations {
-			sr.SetParent(r)
-		}
+		r.SetParents()
 	}
 }
 
-- 
2.43.0


From e401842cb65e1329bd1ecbbce965e78ba7a8ffa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:29 +0000
Subject: [PATCH 14/33] fix: representation getters do not need a parent

---
 mpd/mpd.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mpd/mpd.go b/mpd/mpd.go
index b6bc43d..f436e19 100644
--- a/mpd/mpd.go
+++ b/mpd/mpd.go
@@ -557,7 +557,7 @@ type RepresentationBaseType struct {
 }
 
 func (r *RepresentationType) GetSegmentTemplate() *SegmentTemplateType {
-	if r.SegmentTemplate == nil {
+	if r.SegmentTemplate == nil && r.parent != nil {
 		return r.parent.GetSegmentTemplate()
 	}
 	return r.SegmentTemplate
@@ -602,7 +602,7 @@ func (r *RepresentationType) GetMedia() (string, error) {
 
 // GetMimeType returns the representation's or its parent's mime type.
 func (r *RepresentationType) GetMimeType() string {
-	if r.MimeType == "" {
+	if r.MimeType == "" && r.parent != nil {
 		return r.parent.GetMimeType()
 	}
 	return r.MimeType
@@ -610,7 +610,7 @@ func (r *RepresentationType) GetMimeType() string {
 
 // GetCodecs returns the representation's or its parent's codecs string.
 func (r *RepresentationType) GetCodecs() string {
-	if r.Codecs == "" {
+	if r.Codecs == "" && r.parent != nil {
 		return r.parent.GetCodecs()
 	}
 	return r.Codecs
@@ -618,7 +618,7 @@ func (r *RepresentationType) GetCodecs() string {
 
 // GetContentProtections returns the representation's or its parent's content protections.
 func (r *RepresentationType) GetContentProtections() []*ContentProtectionType {
-	if len(r.ContentProtections) == 0 {
+	if len(r.ContentProtections) == 0 && r.parent != nil {
 		return r.parent.GetContentProtections()
 	}
 	return r.ContentProtections
-- 
2.43.0


From bdfcdb5d2fbb7028016967a613bf1d11de69c332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:14 +0000
Subject: [PATCH 15/33] fix: convert date-times outside 1678-2262 to seconds

---
 mpd/io.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpd/io.go b/mpd/io.go
index 8295cd1..c99e587 100644
--- a/mpd/io.go
+++ b/mpd/io.go
@@ -145,5 +145,5 @@ func (dt DateTime) ConvertToSeconds() (float64, error) {
 	if err != nil {
 		return 0, err
 	}
-	return float64(t.UnixNano()) / 1_000_000_000, nil
+	return float64(t.Unix()) + float64(t.Nanosecond())/1_000_000_000, nil
 }
-- 
2.43.0


From 07a57334c0cf6418b55d316ac233b6416a66b44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:14 +0000
Subject: [PATCH 16/33] fix: skip attributes behind a nil embedded pointer

---
 xml/marshal.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xml/marshal.go b/xml/marshal.go
index d38f724..78c6e1a 100644
--- a/xml/marshal.go
+++ b/xml/marshal.go
@@ -661,7 +661,8 @@ func (p *printer) marshalValue(val reflect.Value, finfo *fieldInfo, startTemplat
 			continue
 		}
 
-		if fv.Kind() == reflect.Interface && fv.IsNil() {
+		if !fv.IsValid() || fv.Kind() == reflect.Interface && fv.IsNil() {
+			// There is no value, or it is behind an anonymous struct field that's nil.
 			continue
 		}
 
-- 
2.43.0


From d63a5a50ee038d7005f8bf210bf323a3a258d3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:57 +0000
Subject: [PATCH 17/33] fix: keep the namespace of an MPD element with a prefix

---
 mpd/io.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/mpd/io.go b/mpd/io.go
index c99e587..c73390a 100644
--- a/mpd/io.go
+++ b/mpd/io.go
@@ -27,13 +27,7 @@ func ReadFromFile(path string) (*MPD, error) {
 	if err != nil {
 		return nil, err
 	}
-	mpd := MPD{}
-	err = xml.Unmarshal(data, &mpd)
-	if err != nil {
-		return nil, err
-	}
-	mpd.SetParents()
-	return &mpd, nil
+	return MPDFromBytes(data)
 }
 
 // ReadFromString reads and unmarshals an MPD from a string
@@ -48,6 +42,8 @@ func MPDFromBytes(data []byte) (*MPD, error) {
 	if err != nil {
 		return nil, err
 	}
+	// The MPD is written without a prefix, whatever the prefix was in the input.
+	mpd.XMLNs = mpd.XMLName.Space
 	mpd.SetParents()
 	return &mpd, nil
 }
-- 
2.43.0


From e925372a83a2d1066240f45ba9aaff721872a3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:46 +0000
Subject: [PATCH 18/33] fix: replace template identifiers in one pass

A representation id such as Bandwidth or one containing a dollar sign could
become part of an identifier and be replaced a second time.
---
 mpd/mpd.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/mpd/mpd.go b/mpd/mpd.go
index f436e19..6a9cac8 100644
--- a/mpd/mpd.go
+++ b/mpd/mpd.go
@@ -575,10 +575,7 @@ func (r *RepresentationType) GetInit() (string, error) {
 	if st == nil {
 		return "", ErrSegmentTemplateNotSet
 	}
-	initialization := st.Initialization
-	initialization = strings.ReplaceAll(initialization, "$RepresentationID$", r.Id)
-	initialization = strings.ReplaceAll(initialization, "$Bandwidth$", strconv.Itoa(int(r.Bandwidth)))
-	return initialization, nil
+	return r.replaceIdentifiers(st.Initialization), nil
 }
 
 // GetRepMedia returns the representation's media path with replaced ID and bandwidth identifiers.
@@ -593,11 +590,14 @@ func (r *RepresentationType) GetMedia() (string, error) {
 	if st == nil {
 		return "", ErrSegmentTemplateNotSet
 	}
-	media := st.Media
-	media = strings.ReplaceAll(media, "$RepresentationID$", r.Id)
-	media = strings.ReplaceAll(media, "$Bandwidth$", strconv.Itoa(int(r.Bandwidth)))
+	return r.replaceIdentifiers(st.Media), nil
+}
 
-	return media, nil
+// replaceIdentifiers replaces the ID and bandwidth identifiers of a URL template.
+// It is done in one pass, so that a replaced value is never taken for an identifier.
+func (r *RepresentationType) replaceIdentifiers(template string) string {
+	bandwidth := strconv.FormatUint(uint64(r.Bandwidth), 10)
+	return strings.NewReplacer("$RepresentationID$", r.Id, "$Bandwidth$", bandwidth).Replace(template)
 }
 
 // GetMimeType returns the representation's or its parent's mime type.
-- 
2.43.0


From 1ca0882d4ea4ae9c037fe7d7dc7932b9cd14c90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:58 +0000
Subject: [PATCH 19/33] fix: read a > in text instead of looping forever

---
 xml/xml.go | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/xml/xml.go b/xml/xml.go
index d044c43..1d65454 100644
--- a/xml/xml.go
+++ b/xml/xml.go
@@ -1063,11 +1063,6 @@ Input:
 			d.ungetc('<')
 			break Input
 		}
-		// This occurs only for an unquoted attr name.
-		if b == '>' && !cdata && quote < 0 { // Possible end of tag reached
-			d.ungetc('>') // Leaving end of tag available
-			break         // returning text
-		}
 		if quote >= 0 && b == byte(quote) {
 			break Input
 		}
-- 
2.43.0


From 2275831514eee61a0d75fa620f250ec1765d5f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:43 +0000
Subject: [PATCH 20/33] fix: do not swallow the character after an attribute
 without value

---
 xml/xml.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xml/xml.go b/xml/xml.go
index 1d65454..d1689db 100644
--- a/xml/xml.go
+++ b/xml/xml.go
@@ -871,6 +871,7 @@ func (d *Decoder) rawToken() (Token, error) {
 				d.err = d.syntaxError("attribute name without = in element")
 				return nil, d.err
 			}
+			d.ungetc(b)
 			a.Value = a.Name.Local
 		} else {
 			d.space()
-- 
2.43.0


From 4f8fc0ace3bb139667f0dbbeb7d31eaa030ccca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:53 +0000
Subject: [PATCH 21/33] fix: report a read error inside text as that error

---
 xml/xml.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/xml/xml.go b/xml/xml.go
index d1689db..f7306fc 100644
--- a/xml/xml.go
+++ b/xml/xml.go
@@ -1034,10 +1034,11 @@ Input:
 	for {
 		b, ok := d.getc()
 		if !ok {
+			if d.err != io.EOF {
+				return nil
+			}
 			if cdata {
-				if d.err == io.EOF {
-					d.err = d.syntaxError("unexpected EOF in CDATA section")
-				}
+				d.err = d.syntaxError("unexpected EOF in CDATA section")
 				return nil
 			}
 			break Input
-- 
2.43.0


From ae20760a11fe2fdfbd20acaebf45a1cc91f0c4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:56 +0000
Subject: [PATCH 22/33] fix: keep the attributes given to EncodeElement

---
 xml/marshal.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xml/marshal.go b/xml/marshal.go
index 78c6e1a..4e492f3 100644
--- a/xml/marshal.go
+++ b/xml/marshal.go
@@ -644,8 +644,8 @@ func (p *printer) marshalValue(val reflect.Value, finfo *fieldInfo, startTemplat
 	}
 
 	// Pre-size start.Attr to avoid repeated backing-array copies.
-	if cap(start.Attr) < tinfo.nAttrs {
-		start.Attr = make([]Attr, 0, tinfo.nAttrs)
+	if n := len(start.Attr) + tinfo.nAttrs; cap(start.Attr) < n {
+		start.Attr = append(make([]Attr, 0, n), start.Attr...)
 	}
 
 	// Attributes
-- 
2.43.0


From 4e05d3b2f083d06a8f39b6c18d46613f2779c525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:46 +0000
Subject: [PATCH 23/33] fix: do not write xmlns="" twice on an element

---
 xml/marshal.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xml/marshal.go b/xml/marshal.go
index 4e492f3..da820db 100644
--- a/xml/marshal.go
+++ b/xml/marshal.go
@@ -12,6 +12,7 @@ import (
 	"fmt"
 	"io"
 	"reflect"
+	"slices"
 	"strconv"
 	"strings"
 	"sync"
@@ -675,7 +676,8 @@ func (p *printer) marshalValue(val reflect.Value, finfo *fieldInfo, startTemplat
 	// If an empty name was found, namespace is overridden with an empty space
 	if tinfo.xmlname != nil && start.Name.Space == "" &&
 		tinfo.xmlname.xmlns == "" && tinfo.xmlname.name == "" &&
-		len(p.elements) != 0 && p.elements[len(p.elements)-1].xmlns != "" {
+		len(p.elements) != 0 && p.elements[len(p.elements)-1].xmlns != "" &&
+		!slices.ContainsFunc(start.Attr, func(a Attr) bool { return a.Name.Space == "" && a.Name.Local == xmlnsPrefix }) {
 		start.Attr = append(start.Attr, Attr{Name{Space: "", Local: xmlnsPrefix}, ""})
 	}
 
-- 
2.43.0


From cf2691f5c3676af2d3244122643c43105cc9623c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:23 +0000
Subject: [PATCH 24/33] fix: keep an element without namespace out of that of
 its parent

---
 mpd/scte35.go  | 6 ++++--
 xml/marshal.go | 6 +++++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/mpd/scte35.go b/mpd/scte35.go
index 7edf4f9..f84ba95 100644
--- a/mpd/scte35.go
+++ b/mpd/scte35.go
@@ -491,9 +491,10 @@ func (p PrivateCommandType) MarshalXML(e *xml.Encoder, start xml.StartElement) e
 		start.Name = p.XMLName
 	}
 	return e.EncodeElement(struct {
+		XMLName xml.Name
 		plain
 		PrivateBytes *privateBytes `xml:"PrivateBytes"`
-	}{plain(p), newPrivateBytes(p.XMLName, p.PrivateBytes)}, start)
+	}{p.XMLName, plain(p), newPrivateBytes(p.XMLName, p.PrivateBytes)}, start)
 }
 
 // MarshalXML writes the PrivateBytes element in the namespace of its parent.
@@ -503,9 +504,10 @@ func (p PrivateDescriptorType) MarshalXML(e *xml.Encoder, start xml.StartElement
 		start.Name = p.XMLName
 	}
 	return e.EncodeElement(struct {
+		XMLName xml.Name
 		plain
 		PrivateBytes *privateBytes `xml:"PrivateBytes"`
-	}{plain(p), newPrivateBytes(p.XMLName, p.PrivateBytes)}, start)
+	}{p.XMLName, plain(p), newPrivateBytes(p.XMLName, p.PrivateBytes)}, start)
 }
 
 // canonicalSCTE35Name returns an xml.Name with the canonical SCTE-35 namespace
diff --git a/xml/marshal.go b/xml/marshal.go
index da820db..975551b 100644
--- a/xml/marshal.go
+++ b/xml/marshal.go
@@ -818,7 +818,11 @@ func defaultStart(typ reflect.Type, finfo *fieldInfo, startTemplate *StartElemen
 func (p *printer) marshalInterface(val Marshaler, start StartElement) error {
 	// Push a marker onto the element stack so that MarshalXML
 	// cannot close the XML tags that it did not open.
-	p.elements = append(p.elements, element{defaultNS: p.innerDefaultNS()})
+	mark := element{defaultNS: p.innerDefaultNS()}
+	if len(p.elements) != 0 {
+		mark.xmlns = p.elements[len(p.elements)-1].xmlns
+	}
+	p.elements = append(p.elements, mark)
 	n := len(p.elements)
 
 	err := val.MarshalXML(p.encoder, start)
-- 
2.43.0


From 24da6ff45b338c1621f76fbcd34417b6f4a53441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:11 +0000
Subject: [PATCH 25/33] fix: end an element whose preferred prefix was taken

---
 xml/marshal.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xml/marshal.go b/xml/marshal.go
index 975551b..e022fd9 100644
--- a/xml/marshal.go
+++ b/xml/marshal.go
@@ -369,6 +369,7 @@ func (enc *Encoder) Close() error {
 type element struct {
 	xmlns      string
 	prefix     string
+	preferred  string // prefix given with the name, which may have been taken
 	name       string
 	defaultNS  string // default namespace in scope inside the element, if it is known
 	nsToPrefix map[string]string
@@ -379,6 +380,7 @@ func newElement(name Name) element {
 	var e element
 	e.xmlns = name.Space
 	e.prefix, e.name = splitPrefixed(name.Local)
+	e.preferred = e.prefix
 	return e
 }
 
@@ -977,7 +979,7 @@ func (p *printer) writeEnd(name Name) error {
 	e := p.elements[len(p.elements)-1]
 	prefix, local := splitPrefixed(name.Local)
 	// Tag prefixes do not match
-	if prefix != "" && e.prefix != "" && prefix != e.prefix {
+	if prefix != "" && e.prefix != "" && prefix != e.prefix && prefix != e.preferred {
 		return fmt.Errorf("xml: end prefix </%s:%s> does not match start prefix <%s:%s>", prefix, local, e.prefix, e.name)
 	}
 	// Tag names do not match
-- 
2.43.0


From 2898d555f76aeb0f9053ceec1ad35462dfd7d6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:18 +0000
Subject: [PATCH 26/33] fix: report a short write of the header

---
 mpd/io.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mpd/io.go b/mpd/io.go
index c73390a..195bf84 100644
--- a/mpd/io.go
+++ b/mpd/io.go
@@ -18,6 +18,9 @@ type countingWriter struct {
 func (cw *countingWriter) Write(p []byte) (int, error) {
 	n, err := cw.w.Write(p)
 	cw.n += n
+	if err == nil && n < len(p) {
+		err = io.ErrShortWrite
+	}
 	return n, err
 }
 
-- 
2.43.0


From 11cdbda83c9cc36e1a0207a8fdcf9d4357f0fe2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:47 +0000
Subject: [PATCH 27/33] fix: never bind another prefix to the xml namespace

---
 xml/marshal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xml/marshal.go b/xml/marshal.go
index e022fd9..dbc4b49 100644
--- a/xml/marshal.go
+++ b/xml/marshal.go
@@ -476,7 +476,7 @@ func (p *printer) getPrefix(uri string) string {
 // defining a new prefix if necessary. It returns the prefix.
 // If set, it will attempt to use preferred as the prefix.
 func (p *printer) createPrefix(uri, preferred string) (string, bool) {
-	if prefix := p.getPrefix(uri); prefix != "" && (prefix == preferred || preferred == "") {
+	if prefix := p.getPrefix(uri); prefix != "" && (prefix == preferred || preferred == "" || prefix == xmlPrefix) {
 		p.usePrefix(prefix, uri)
 		return prefix, false
 	}
-- 
2.43.0


From d22742db5465f51ee8cf9d01f47f4b18ad87f73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:43 +0000
Subject: [PATCH 28/33] fix: do not read a prefix declaration as an attribute
 of that name

---
 xml/read.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xml/read.go b/xml/read.go
index 1c19b12..503cd10 100644
--- a/xml/read.go
+++ b/xml/read.go
@@ -480,8 +480,9 @@ func (d *Decoder) unmarshal(val reflect.Value, start *StartElement, depth int) e
 		for _, a := range start.Attr {
 			// Try exact match (namespace + local name) first.
 			fi, ok := tinfo.attrs[attrKey{a.Name.Space, a.Name.Local}]
-			if !ok {
-				// A field registered with empty xmlns matches any namespace.
+			if !ok && a.Name.Space != xmlnsURL {
+				// A field registered with empty xmlns matches any namespace,
+				// but a prefix declaration is not an attribute of that name.
 				fi, ok = tinfo.attrs[attrKey{"", a.Name.Local}]
 			}
 			if ok {
-- 
2.43.0


From 48223a73ebeee2d6569b1b953edf8a71d800ecdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:48 +0000
Subject: [PATCH 29/33] fix: bound the unmarshal depth across DecodeElement

The depth was counted per call of DecodeElement, so a document nested below
an UnmarshalXML that calls DecodeElement had no bound (a recursive one could
exhaust the stack), and slices counted every level twice. Count the depth of
the element instead, as current encoding/xml does.
---
 xml/read.go | 22 +++++++++-------------
 xml/xml.go  |  7 +++++++
 2 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/xml/read.go b/xml/read.go
index 503cd10..65c10e5 100644
--- a/xml/read.go
+++ b/xml/read.go
@@ -157,7 +157,7 @@ func (d *Decoder) DecodeElement(v any, start *StartElement) error {
 	if val.IsNil() {
 		return errors.New("nil pointer passed to Unmarshal")
 	}
-	return d.unmarshal(val.Elem(), start, 0)
+	return d.unmarshal(val.Elem(), start)
 }
 
 // An UnmarshalError represents an error in the unmarshaling process.
@@ -322,8 +322,8 @@ const (
 var errUnmarshalDepth = errors.New("exceeded max depth")
 
 // Unmarshal a single XML element into val.
-func (d *Decoder) unmarshal(val reflect.Value, start *StartElement, depth int) error {
-	if depth >= maxUnmarshalDepth || runtime.GOARCH == "wasm" && depth >= maxUnmarshalDepthWasm {
+func (d *Decoder) unmarshal(val reflect.Value, start *StartElement) error {
+	if d.stkDepth > maxUnmarshalDepth || runtime.GOARCH == "wasm" && d.stkDepth > maxUnmarshalDepthWasm {
 		return errUnmarshalDepth
 	}
 	// Find start element if we need it.
@@ -419,7 +419,7 @@ func (d *Decoder) unmarshal(val reflect.Value, start *StartElement, depth int) e
 		v.SetLen(n + 1)
 
 		// Recur to read element into slice.
-		if err := d.unmarshal(v.Index(n), start, depth+1); err != nil {
+		if err := d.unmarshal(v.Index(n), start); err != nil {
 			v.SetLen(n)
 			return err
 		}
@@ -549,15 +549,13 @@ Loop:
 		case StartElement:
 			consumed := false
 			if sv.IsValid() {
-				// unmarshalPath can call unmarshal, so we need to pass the depth through so that
-				// we can continue to enforce the maximum recursion limit.
-				consumed, err = d.unmarshalPath(tinfo, sv, nil, &t, depth)
+				consumed, err = d.unmarshalPath(tinfo, sv, nil, &t)
 				if err != nil {
 					return err
 				}
 				if !consumed && saveAny.IsValid() {
 					consumed = true
-					if err := d.unmarshal(saveAny, &t, depth+1); err != nil {
+					if err := d.unmarshal(saveAny, &t); err != nil {
 						return err
 					}
 				}
@@ -702,7 +700,7 @@ func copyValue(dst reflect.Value, src []byte) (err error) {
 // The consumed result tells whether XML elements have been consumed
 // from the Decoder until start's matching end element, or if it's
 // still untouched because start is uninteresting for sv's fields.
-func (d *Decoder) unmarshalPath(tinfo *typeInfo, sv reflect.Value, parents []string, start *StartElement, depth int) (consumed bool, err error) {
+func (d *Decoder) unmarshalPath(tinfo *typeInfo, sv reflect.Value, parents []string, start *StartElement) (consumed bool, err error) {
 	recurse := false
 Loop:
 	for i := range tinfo.fields {
@@ -717,7 +715,7 @@ Loop:
 		}
 		if len(finfo.parents) == len(parents) && finfo.name == start.Name.Local {
 			// It's a perfect match, unmarshal the field.
-			return true, d.unmarshal(finfo.value(sv, initNilPointers), start, depth+1)
+			return true, d.unmarshal(finfo.value(sv, initNilPointers), start)
 		}
 		if len(finfo.parents) > len(parents) && finfo.parents[len(parents)] == start.Name.Local {
 			// It's a prefix for the field. Break and recurse
@@ -746,9 +744,7 @@ Loop:
 		}
 		switch t := tok.(type) {
 		case StartElement:
-			// the recursion depth of unmarshalPath is limited to the path length specified
-			// by the struct field tag, so we don't increment the depth here.
-			consumed2, err := d.unmarshalPath(tinfo, sv, parents, &t, depth)
+			consumed2, err := d.unmarshalPath(tinfo, sv, parents, &t)
 			if err != nil {
 				return true, err
 			}
diff --git a/xml/xml.go b/xml/xml.go
index f7306fc..f930123 100644
--- a/xml/xml.go
+++ b/xml/xml.go
@@ -205,6 +205,7 @@ type Decoder struct {
 	buf            bytes.Buffer
 	saved          *bytes.Buffer
 	stk            *stack
+	stkDepth       int
 	free           *stack
 	needClose      bool
 	toClose        Name
@@ -436,12 +437,18 @@ func (d *Decoder) push(kind int) *stack {
 	s.next = d.stk
 	s.kind = kind
 	d.stk = s
+	if kind == stkStart {
+		d.stkDepth++
+	}
 	return s
 }
 
 func (d *Decoder) pop() *stack {
 	s := d.stk
 	if s != nil {
+		if s.kind == stkStart {
+			d.stkDepth--
+		}
 		d.stk = s.next
 		s.next = d.free
 		d.free = s
-- 
2.43.0


From 3c7a2b140817a5b7265fc91fa4482cf0c421a302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:02 +0000
Subject: [PATCH 30/33] fix: do not use a declared prefix that is no name when
 writing

---
 xml/marshal.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/xml/marshal.go b/xml/marshal.go
index dbc4b49..8e99f85 100644
--- a/xml/marshal.go
+++ b/xml/marshal.go
@@ -528,6 +528,11 @@ func (p *printer) createPrefix(uri, preferred string) (string, bool) {
 	return prefix, true
 }
 
+// isPrefix reports whether s can be used as a namespace prefix.
+func isPrefix(s string) bool {
+	return isName([]byte(s)) && !strings.Contains(s, ":")
+}
+
 func (p *printer) writePrefixAttr(prefix, uri string) {
 	p.WriteString(`xmlns:`)
 	p.WriteString(prefix)
@@ -867,8 +872,9 @@ func (p *printer) writeStart(start *StartElement) error {
 
 	// Register the prefixes declared by xmlns:prefix="uri" attributes up front,
 	// so that they are used where they fit, and are never declared a second time.
+	// The decoder also accepts declarations of what cannot be a prefix, such as "1".
 	for _, attr := range start.Attr {
-		if attr.Name.Space == xmlnsURL && attr.Name.Local != "" && attr.Value != "" {
+		if attr.Name.Space == xmlnsURL && isPrefix(attr.Name.Local) && attr.Value != "" {
 			e.declarePrefix(attr.Name.Local, attr.Value)
 		}
 	}
@@ -893,7 +899,7 @@ func (p *printer) writeStart(start *StartElement) error {
 		if !spaceDefined && e.prefix == "" {
 			// Look for an xmlns:prefix="uri" attribute that matches tag
 			for _, attr := range start.Attr {
-				if attr.Name.Space == xmlnsURL && attr.Name.Local != "" && attr.Value == e.xmlns {
+				if attr.Name.Space == xmlnsURL && isPrefix(attr.Name.Local) && attr.Value == e.xmlns {
 					e.prefix, _ = p.createPrefix(attr.Value, attr.Name.Local)
 					spaceDefined = true
 					break
-- 
2.43.0


From d517eaaa82d34c36f5372094f0b7de7ab5bd396a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:47 +0000
Subject: [PATCH 31/33] fix: report a period start that does not fit in a
 Duration as unknown

---
 mpd/period.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mpd/period.go b/mpd/period.go
index fe08781..d158401 100644
--- a/mpd/period.go
+++ b/mpd/period.go
@@ -118,7 +118,12 @@ func (p *Period) GetStart() (Duration, error) {
 			if err != nil {
 				return 0, fmt.Errorf("cannot get start of previous period: %w", err)
 			}
-			return prevStart + *prev.Duration, nil
+			start := prevStart + *prev.Duration
+			if *prev.Duration > 0 && start < prevStart {
+				// The start does not fit in a Duration.
+				return 0, ErrUnknownPeriodStart
+			}
+			return start, nil
 		}
 		return 0, ErrUnknownPeriodStart
 	}
-- 
2.43.0


From 99bb38c5cd1e4c9dbf3f22373cc40ebb6c223621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:12 +0000
Subject: [PATCH 32/33] fix: write -INF instead of Go's -Inf in floating point
 attributes

---
 mpd/mpd.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mpd/mpd.go b/mpd/mpd.go
index 6a9cac8..7e516b8 100644
--- a/mpd/mpd.go
+++ b/mpd/mpd.go
@@ -1236,7 +1236,7 @@ func NewUIntVWithID() *UIntVWithIDType {
 	return &UIntVWithIDType{}
 }
 
-// FloatInf64 is a float64 which renders as "INF" for +Inf
+// FloatInf64 is a float64 which renders as "INF" for +Inf and "-INF" for -Inf
 type FloatInf64 float64
 
 func (f *FloatInf64) MarshalXMLAttr(name xml.Name) (xml.Attr, error) {
@@ -1247,6 +1247,9 @@ func (f *FloatInf64) MarshalXMLAttr(name xml.Name) (xml.Attr, error) {
 	if fl == math.Inf(+1) {
 		return xml.Attr{Name: name, Value: "INF"}, nil
 	}
+	if fl == math.Inf(-1) {
+		return xml.Attr{Name: name, Value: "-INF"}, nil
+	}
 	val := strconv.FormatFloat(fl, 'f', -1, 64)
 	return xml.Attr{Name: name, Value: val}, nil
 }
-- 
2.43.0


From b7a1dc3c36d2aacca56d2308df7fc2ac3f03cf3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:43 +0000
Subject: [PATCH 33/33] fix: accept white space around durations and
 availability offsets as around other numbers

---
 mpd/duration.go | 2 +-
 mpd/mpd.go      | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/mpd/duration.go b/mpd/duration.go
index da336fd..89cb16e 100644
--- a/mpd/duration.go
+++ b/mpd/duration.go
@@ -40,7 +40,7 @@ func (d *Duration) MarshalXMLAttr(name xml.Name) (xml.Attr, error) {
 }
 
 func (d *Duration) UnmarshalXMLAttr(attr xml.Attr) error {
-	dur, err := ParseDuration(attr.Value)
+	dur, err := ParseDuration(strings.Trim(attr.Value, " \t\r\n"))
 	if err != nil {
 		return err
 	}
diff --git a/mpd/mpd.go b/mpd/mpd.go
index 7e516b8..643db91 100644
--- a/mpd/mpd.go
+++ b/mpd/mpd.go
@@ -1255,11 +1255,12 @@ func (f *FloatInf64) MarshalXMLAttr(name xml.Name) (xml.Attr, error) {
 }
 
 func (f *FloatInf64) UnmarshalXMLAttr(attr xml.Attr) error {
-	if attr.Value == "INF" {
+	value := strings.Trim(attr.Value, " \t\r\n")
+	if value == "INF" {
 		*f = FloatInf64(math.Inf(+1))
 		return nil
 	}
-	fl, err := strconv.ParseFloat(attr.Value, 64)
+	fl, err := strconv.ParseFloat(value, 64)
 	if err != nil {
 		return err
 	}
-- 
2.43.0

